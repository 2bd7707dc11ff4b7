"""Restore a saved model in a new interpreter and go on with the session (run by C09)."""
import pickle
import sys

if __name__ == "__main__":
    from sim import env
    weac, seams = env.load()
    from sim import session as S, snapshot
    blob, ops = pickle.load(sys.stdin.buffer)
    r = snapshot.restore(weac, blob)
    out = [snapshot.perform(r, op) for op in ops]
    sys.stdout.buffer.write(b"RESULT" + pickle.dumps(out))
