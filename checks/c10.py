"""C10: opening."""
import cut
import names

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    names.native_open(chk, 1 if quick else 20)
    if not chk.violations:
        cut.attempt(chk, 'opening', lambda: names.prove_open(chk, 40 if quick else 900))
    return chk.finish('proof')
