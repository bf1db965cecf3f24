"""C03: what an encoding can express survives encoding and decoding."""
import rt
import rtproof

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    mon = rt.run_native(chk, 1.0 if quick else 30)
    if not chk.violations and mon:
        rtproof.prove(chk, mon, chk.src.encodings, False, 30 if quick else 900, 40 if quick else 20000, 40 if quick else 20000)
    return chk.finish('proof')
