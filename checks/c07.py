"""C07: reset."""
import conv
import loops

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    loops.run_sys(chk, 'r', 0.5 if quick else 30)
    if not chk.violations:
        loops.prove_loops(chk, ('reset',))
        encs = [e for e in chk.src.encodings if e.flushwc or e.reset]
        mon = conv.build_mon(chk, False)
        nat = conv.run_native(chk, mon, encs, budget=0.3 if quick else 6, limit=120) if mon else {}
        conv.prove_all(chk, nat, mon, encs, ['ob_flush', 'ob_reset'], 60 if quick else 3000, 30 if quick else 1e9,
                       'converter contract of')
    return chk.finish('proof')
