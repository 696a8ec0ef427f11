"""Runs scenarios from stdin in a fresh interpreter and prints their digests."""
import os
import pickle
import sys


def main():
    from dst import env

    env.setup(jit=os.environ.get("DST_JIT") == "1")
    from dst.runner import event_digest, execute

    scs = pickle.loads(sys.stdin.buffer.read())
    out = [event_digest(execute(s)) for s in scs]
    sys.stdout.buffer.write(b"DSTFRESH" + pickle.dumps(out))
    sys.stdout.buffer.flush()


if __name__ == "__main__":
    main()
