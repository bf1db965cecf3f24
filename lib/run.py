"""entry point of the checks: run.py <property> <tier>"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
import vf  # noqa: E402


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    mod = importlib.import_module(prop.lower())
    try:
        chk = vf.Check(prop, tier)
    except Exception:
        traceback.print_exc()
        print('the sources of the current tree could not be brought to the verifier')
        vf.write_failure(prop, tier, traceback.format_exc())
        return 0
    try:
        return mod.run(chk)
    except Exception:
        # a failure of the machinery is not a verdict about the code: report what was decided so far
        traceback.print_exc()
        chk.notes.append('machinery failure: ' + traceback.format_exc()[-1500:])
        return chk.finish(getattr(mod, 'LEVEL', 'proof'))


if __name__ == '__main__':
    sys.exit(main())
