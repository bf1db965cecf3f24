"""C04: the Unicode encodings follow their definitions."""
import uni

LEVEL = 'proof'


def run(chk):
    uni.run_native(chk, 1.0 if chk.tier == 'quick' else 30)
    if not chk.violations:
        uni.prove(chk, None)
    return chk.finish('proof')
