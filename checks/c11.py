"""C11."""
import conv
import frame
import leaf
import loops

LEVEL = 'proof'


def run(chk):
    quick = chk.tier == 'quick'
    loops.run_sys(chk, 'i', 0.5 if quick else 30)
    frame.native(chk)
    frame.static_state(chk)
    if chk.violations:
        return chk.finish('proof')
    loops.prove_loops(chk, obs=('convert', 'reset'))
    lv = leaf.Leaves(chk, budget=25 if quick else 600, kinds=('pure',))
    conv.prove_all(chk, {}, None, chk.src.encodings, ['ob_frame'], 40 if quick else 5000, 60 if quick else 1e9,
                   'frame of the converters', frame_only=True, leaves=lv)
    return chk.finish('proof')
