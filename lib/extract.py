"""Brings /repo's current source within reach of the verifier, from scratch on every run.

1. configures the public headers (the @VAR@ substitutions cmake does) into a scratch directory;
2. preprocesses lib/iconv.c of the working tree (everything the library compiles except the
   C++ wrapper is included by that file);
3. splits the result into top-level declarations (slicer.Unit), from which any function can be
   cut out verbatim together with everything it mentions;
4. reads the table of encodings to learn which function serves which encoding.
"""
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import slicer  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')


class ExtractError(Exception):
    pass


def configure_headers(dst):
    top = open(REPO + '/CMakeLists.txt', encoding='utf-8').read()
    m = re.search(r'project\(cppp-reiconv\s+VERSION\s+(\d+)\.(\d+)\.(\d+)', top)
    ver = m.groups() if m else ('0', '0', '0')
    os.makedirs(dst + '/cppp/encodings', exist_ok=True)

    def conf(src, out, code=''):
        t = open(src, encoding='utf-8').read()
        t = t.replace('@CPPP_API@', '').replace('@INDEXES_CODE@', code)
        t = re.sub(r'@(\w+)@', '', t)
        open(out, 'w', encoding='utf-8').write(t)
    inc = REPO + '/include/'
    conf(inc + 'cppp/reiconv.h.in', dst + '/cppp/reiconv.h')
    conf(inc + 'cppp/reiconv.hpp.in', dst + '/cppp/reiconv.hpp')
    g = REPO + '/lib/generated/indexes.%s.shippet'
    conf(inc + 'cppp/encodings/reiconv.h.in', dst + '/cppp/encodings/reiconv.h', open(g % 'h').read().strip())
    conf(inc + 'cppp/encodings/reiconv.hpp.in', dst + '/cppp/encodings/reiconv.hpp', open(g % 'hpp').read().strip())
    conf(inc + 'iconv.h.in', dst + '/iconv.h')
    return ['-DVERSION_MAJOR=' + ver[0], '-DVERSION_MINOR=' + ver[1], '-DVERSION_PATCH=' + ver[2]]


class Enc:
    """one row of the table of encodings"""
    __slots__ = ('name', 'index', 'mbtowc', 'flushwc', 'wctomb', 'reset')

    def __repr__(self):
        return 'Enc(%s)' % ', '.join(str(getattr(self, s)) for s in self.__slots__)


class Source:
    def __init__(self, scratch):
        self.scratch = scratch
        inc = scratch + '/include'
        self.defs = configure_headers(inc)
        self.incs = ['-I', REPO + '/lib', '-I', inc]
        self.cflags = self.defs + self.incs
        r = subprocess.run(['gcc', '-E', '-P', '-std=gnu17'] + self.cflags + [REPO + '/lib/iconv.c'],
                           capture_output=True, text=True, errors='replace')
        if r.returncode:
            raise ExtractError('preprocessing lib/iconv.c failed:\n' + r.stderr[-3000:])
        self.text = r.stdout
        self._unit = None
        self._encs = None

    @property
    def unit(self):
        if self._unit is None:
            self._unit = slicer.Unit(self.text)
        return self._unit

    @property
    def encodings(self):
        if self._encs is None:
            self._encs = self._read_encodings()
        return self._encs

    def _read_encodings(self):
        m = re.search(r'\bstruct\s+encoding\s+const\s+all_encodings\s*\[\s*\]\s*=\s*\{|'
                      r'\bconst\s+struct\s+encoding\s+all_encodings\s*\[\s*\]\s*=\s*\{', self.text)
        if not m:
            raise ExtractError('table all_encodings not found')
        i = m.end()
        depth = 1
        j = i
        while depth:
            c = self.text[j]
            depth += (c == '{') - (c == '}')
            j += 1
        body = self.text[i:j - 1]
        body = re.sub(r'\(\s*\(\s*void\s*\*\s*\)\s*0\s*\)|\(\s*void\s*\*\s*\)\s*0', 'NULL', body)
        rows = re.findall(r'\{\s*\{?\s*(\w+)\s*,\s*(\w+)\s*\}?\s*,\s*\{?\s*(\w+)\s*,\s*(\w+)\s*\}?\s*\}', body)
        m = re.search(r'enum\s*\{\s*((?:ei_\w+\s*,\s*)+)ei_end\s*,?\s*\}', self.text)
        if not m:
            raise ExtractError('enum of encoding indexes not found')
        names = re.findall(r'ei_(\w+)', m.group(1))
        if len(names) != len(rows):
            raise ExtractError('all_encodings has %d rows, enum has %d' % (len(rows), len(names)))
        out = []
        for k, (n, r) in enumerate(zip(names, rows)):
            e = Enc()
            e.name, e.index = n, k
            e.mbtowc, e.flushwc, e.wctomb, e.reset = [None if x in ('NULL', '0') else x for x in r]
            out.append(e)
        return out


if __name__ == '__main__':
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        s = Source(d)
        print(len(s.encodings))
        for e in s.encodings:
            print(e)
