"""C02: independence of the cutting of input and output."""
import conv
import leaf
import loops

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    encs = chk.src.encodings
    mon = conv.build_mon(chk, False)
    nat = conv.run_native(chk, mon, encs, budget=0.2 if quick else 6, limit=120) if mon else {}
    conv.report_native(chk, nat)
    chk.bounded.append('runtime form of the contracts on the real converters of %d encodings: %d converter calls' %
                       (len(nat), sum(n.evals for n in nat.values())))
    loops.run_sys(chk, 'c', 0.3 if quick else 8)
    if not chk.violations:
        loops.prove_loops(chk)
        lv = leaf.Leaves(chk, budget=30 if quick else 600)
        conv.prove_all(chk, nat, mon, encs, ['ob_redo', 'ob_prefix', 'ob_progress', 'ob_size'], 50 if quick else 5000,
                       60 if quick else 1e9, 'converter contract of', leaves=lv)
    return chk.finish('proof')
