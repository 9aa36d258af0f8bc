"""Shared pieces of the run-time side (PyPy, real numpy, real code from /repo)."""
import os, sys, random, warnings, logging, io, contextlib
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import atrcopy
from atrcopy import errors
from atrcopy.segments import SegmentData, DefaultSegment
from atrcopy.ataridos import AtariDosDiskImage
from atrcopy.dos33 import Dos33DiskImage

assert os.path.realpath(atrcopy.__file__).startswith(os.path.realpath(REPO)), atrcopy.__file__


class Fail(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def rbytes(rng, n, mode=None):
    mode = mode or rng.choice(["rand", "rand", "zero", "ff", "count", "ends"])
    if mode == "rand":
        return rng.getrandbits(8 * n).to_bytes(n, "little") if n else b""
    if mode == "zero":
        return b"\0" * n
    if mode == "ff":
        return b"\xff" * n
    if mode == "ends":
        # runs of one byte (end of text, end of line, blanks) in front and at the end
        a, z = min(n, rng.choice([0, 0, 1, 3])), min(n, rng.choice([1, 2, 40]))
        return (bytes([rng.choice(b"\x00\x1a\x9b \n\r\t\xff")]) * a + rbytes(rng, n, "rand"))[:n - z] + bytes([rng.choice(b"\x00\x1a\x9b \n\r\t\xff")]) * z
    return bytes((i * 7 + 3) & 255 for i in range(n))


def arr(b):
    return np.frombuffer(bytes(b), dtype=np.uint8).copy()


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        yield buf
    finally:
        sys.stdout = old


def diff_positions(a, b):
    a = arr(a) if not isinstance(a, np.ndarray) else a
    b = arr(b) if not isinstance(b, np.ndarray) else b
    check(len(a) == len(b), "size changed from %d to %d", len(a), len(b))
    return np.nonzero(a != b)[0]
