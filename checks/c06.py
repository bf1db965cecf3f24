"""C06: invalid input and unencodable characters."""
import loops

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    loops.run_sys(chk, 'p', 0.5 if quick else 30)
    if not chk.violations:
        loops.prove_loops(chk, ('convert',))
    return chk.finish('proof')
