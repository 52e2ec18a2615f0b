"""C03 full mode: all three component signatures are required."""
from .. import proto as P
from . import c02
LEVEL = "model_checking"
def components(L, it): return c02.components(L, it, mode="f")
def check(c):
    so = c02.run(c, "f", [(33, 33)] if not c.thorough else [(33, 33), (1, 64), (64, 2)], components)
    if not c.viol and P.confusion(c, so)[1]:
        c.known_finding("Ed25519 and Dilithium parts of a compact signature of m are valid in a full signature over the 64-byte message SHA3-512(nonce||m||SPHINCS+ pk), so forging SPHINCS+ alone suffices there (no domain separation between modes)", "cross-mode-compact-to-full")
