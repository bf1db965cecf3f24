"""C14: 7-bit encodings."""
import rt
import rtproof

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    encs = [e for e in chk.src.encodings if rt.SEVEN.match(e.name)]
    mon = rt.run_native(chk, 2 if quick else 30, encs, seven=True)
    if not chk.violations and mon:
        rtproof.prove(chk, mon, encs, True, 30 if quick else 900, 30 if quick else 20000)
    return chk.finish('proof')
