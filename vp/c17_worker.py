"""A second interpreter for C17: reads (seed, specs, warm-up specs), answers with the values."""
import os
import pickle
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ["VP_REPO"])
sys.setrecursionlimit(1500)


def values(seed, specs, schemas=None):
    """The values of the sequence, and of the same schema objects once more, in reverse."""
    from d42 import fake
    from d42.generation import Random
    from vp.model import build, vkey
    if schemas is None:
        schemas = [build(s) for s in specs]
    schemas = schemas + schemas[:12][::-1]
    Random().set_seed(seed)
    out = []
    for s in schemas:
        try:
            out.append(vkey(fake(s)))
        except Exception as e:
            out.append(("raised", type(e).__name__))
    return out


def read(f, n):
    buf = b""
    while len(buf) < n:
        part = f.read(n - len(buf))
        if not part:
            sys.exit(0)
        buf += part
    return buf


def main():
    fin = os.fdopen(os.dup(0), "rb")
    fout = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        n, = struct.unpack("<Q", read(fin, 8))
        seed, specs = pickle.loads(read(fin, n))
        data = pickle.dumps(values(seed, specs))
        try:
            fout.write(struct.pack("<Q", len(data)) + data)
            fout.flush()
        except BrokenPipeError:
            os._exit(0)


if __name__ == "__main__":
    main()
