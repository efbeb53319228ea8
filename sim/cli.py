import sys

from . import runner

if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "worker":
        runner.worker(args)
    elif cmd == "replay-worker":
        runner.replay_worker(args[0])
    elif cmd == "minimise-worker":
        runner.minimise_worker(*args)
