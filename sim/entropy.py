"""Hash seeds of the Rust side: every call that should see new ones is made on
a new thread after seeding the entropy seam."""
import ctypes
import threading

LIB = None


def setup(conf):
    global LIB
    LIB = ctypes.CDLL(conf['simrand'])
    LIB.simrand_seed.argtypes = [ctypes.c_uint64]
    LIB.simrand_draws.restype = ctypes.c_ulong


def call(seed, fn, *args):
    """fn(*args) under hash seeds derived from seed; also how many were drawn"""
    LIB.simrand_seed(seed & (2**64 - 1))
    before = LIB.simrand_draws()
    box = []

    def body():
        try:
            box.append((True, fn(*args)))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    drawn = LIB.simrand_draws() - before
    ok, val = box[0]
    if not ok:
        raise val
    return val, drawn
