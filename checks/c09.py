"""C09: the one-shot functions."""
import loops

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    loops.run_sys(chk, 'o', 0.5 if quick else 30)
    if not chk.violations:
        loops.prove_oneshot(chk, 40 if quick else 900)
    return chk.finish('proof')
