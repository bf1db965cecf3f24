"""C01: memory safety, accounting and termination of every conversion and reset call."""
import conv
import leaf
import loops

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    encs = chk.src.encodings
    mon = conv.build_mon(chk, True)
    nat = conv.run_native(chk, mon, encs, budget=0.15 if quick else 4, limit=120) if mon else {}
    conv.report_native(chk, nat, conv.SAFETY_CLAUSES)
    chk.bounded.append('runtime form of the contracts (ASan, exact-size buffers) on the real converters of %d encodings: '
                       '%d converter calls' % (len(nat), sum(n.evals for n in nat.values())))
    loops.run_sys(chk, 'pr', 0.25 if quick else 6, {'memory', 'crash', 'accounting', 'frame'})
    if not chk.violations:
        loops.prove_loops(chk)
        lv = leaf.Leaves(chk, ranges=True, budget=30 if quick else 600)
        conv.prove_all(chk, nat, mon, encs, ['ob_dec', 'ob_flush', 'ob_enc', 'ob_reset'], 40 if quick else 5000,
                       60 if quick else 1e9, 'converter contract of', leaves=lv)
    return chk.finish('proof')
