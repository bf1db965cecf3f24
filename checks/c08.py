"""C08: name and code page lookup."""
import names

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    names.native_names(chk, 1 if quick else 20)
    if not chk.violations:
        names.prove_names(chk, 120 if quick else 900)
    return chk.finish('proof')
