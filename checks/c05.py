"""C05: 8-bit encodings map exactly their repertoire."""
import sb

LEVEL = 'proof'


def run(chk):
    sb.run(chk)
    chk.assumptions.append('spec/sb.txt is the published mapping (from the mapping files of the Unicode consortium and IBM kept in '
                           'tests/data; cross-checked once against glibc and Python, see DESIGN.md)')
    return chk.finish('proof')
