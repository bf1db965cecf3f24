"""Mechanical extraction of a self-contained C translation unit.

Input: the preprocessed text of /repo/lib/iconv.c (gcc -E on the current tree).
Output: the subset of its top-level declarations that a set of root names
transitively mentions, verbatim and in source order.  Nothing inside a
declaration is edited here; what the extraction drops is exactly the top-level
declarations that the roots cannot reach.
"""
import re

_TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
  | (?P<id>[A-Za-z_]\w*)
  | (?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)
  | (?P<op>->|\+\+|--|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\.\.\.|.)
''', re.X | re.S)

KEYWORDS = set('''auto break case char const continue default do double else enum extern float for goto if inline int
long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while
_Bool __attribute__ __asm__ __extension__ __inline __inline__ __restrict'''.split())


def tokens(text):
    """[(kind, text, offset)] without white space"""
    out = []
    for m in _TOK.finditer(text):
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group(), m.start()))
    return out


class Decl:
    __slots__ = ('text', 'ids', 'defines', 'order', 'is_func')


def split_toplevel(text):
    """split preprocessed C into top-level declarations"""
    # remove line markers and pragmas
    text = re.sub(r'(?m)^\s*#.*$', '', text)
    decls = []
    depth = 0
    start = None
    last_close_fn = False
    ids = []
    seen_eq = False
    paren = 0
    toks_in = []
    for m in _TOK.finditer(text):
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if start is None:
            start = m.start()
            ids = []
            toks_in = []
            seen_eq = False
        if k == 'id':
            ids.append(t)
        if depth <= 1 and len(toks_in) < 400:
            toks_in.append((k, t, depth))
        if k == 'op':
            if t in '([{':
                depth += 1
            elif t in ')]}':
                depth -= 1
            elif t == '=' and depth == 0:
                seen_eq = True
            end = None
            if depth == 0 and t == ';':
                end = m.end()
            elif depth == 0 and t == '}' and not seen_eq:
                # function body or struct/enum/union body
                if _is_function(toks_in):
                    end = m.end()
            if end is not None:
                decls.append(_mk(text[start:end], ids, toks_in, len(decls)))
                start = None
    return decls


def _is_function(toks):
    # a '(' at depth 0 preceded by identifier, followed eventually by '{' at depth 0
    for i, (k, t, d) in enumerate(toks):
        if t == '{' and d == 0:
            # previous token at depth 0 must close a parenthesis
            j = i - 1
            return j >= 0 and toks[j][1] == ')'
    return False


def _mk(txt, ids, toks, order):
    d = Decl()
    d.text = txt
    d.ids = set(ids) - KEYWORDS
    d.order = order
    d.is_func = _is_function(toks)
    d.defines = _defines(txt, toks, d.is_func)
    return d


def _defines(txt, toks, is_func):
    names = set()
    head = [(k, t, dd) for (k, t, dd) in toks]
    # struct/union/enum tags with a body, enumerators
    full = None
    if not is_func:
        full = tokens(txt) if len(txt) < 200000 else []
        for i in range(len(full) - 2):
            if full[i][1] in ('struct', 'union', 'enum'):
                if full[i + 1][0] == 'id' and full[i + 2][1] == '{':
                    names.add(full[i + 1][1])
                    st = i + 2
                elif full[i + 1][1] == '{':
                    st = i + 1
                else:
                    continue
                if full[i][1] == 'enum':
                    j = st + 1
                    depth = 0
                    expect = True
                    while j < len(full):
                        t = full[j][1]
                        if t in '([{':
                            depth += 1
                        elif t in ')]}':
                            if depth == 0:
                                break
                            depth -= 1
                        elif depth == 0 and t == ',':
                            expect = True
                        elif depth == 0 and expect and full[j][0] == 'id':
                            names.add(t)
                            expect = False
                        j += 1
    # declarator name(s): identifiers at depth 0 before '(' '[' '=' ',' ';' '{'
    prev = None
    isdef = toks and toks[0][1] == 'typedef'
    for i, (k, t, dd) in enumerate(head):
        if dd == 0 and k == 'id' and t not in KEYWORDS:
            nxt = head[i + 1][1] if i + 1 < len(head) else ';'
            if nxt in ('(', '[', '=', ',', ';', '__attribute__', '__asm__'):
                names.add(t)
                if nxt == '(' or nxt == '=':
                    if not isdef:
                        break
    if isdef:
        # function pointer typedefs: (*name)
        for i, (k, t, dd) in enumerate(head):
            if t == '*' and dd == 1 and i + 1 < len(head) and head[i + 1][0] == 'id':
                names.add(head[i + 1][1])
    return names


def opaque_text(d, size=None):
    """the declaration of a table without its initializer (unknown contents), or with another one"""
    t = d.text
    i = t.index('=')
    t = t[:i].rstrip()
    t = re.sub(r'\bconst\b', '', t)
    if size is not None:
        if isinstance(size, str):
            return t + ' = ' + size + ';'
        t = re.sub(r'\[\s*\]', '[%d]' % size, t)
    return t + ';'


class Unit:
    def __init__(self, text):
        self.decls = split_toplevel(text)
        self.by_name = {}
        for d in self.decls:
            for n in d.defines:
                self.by_name.setdefault(n, []).append(d)

    def closure(self, roots, stop=(), opaque=()):
        """declarations reachable from the root identifiers; `stop`: functions left out; `opaque`: tables whose
        initializer is left out"""
        seen = {}
        work = list(roots)
        done = set()
        while work:
            n = work.pop()
            if n in done:
                continue
            done.add(n)
            for d in self.by_name.get(n, ()):
                if n in stop and d.is_func:
                    if d.order not in seen:
                        seen[d.order] = d
                        work.extend({t for k, t, _ in tokens(d.text[:d.text.index('{')]) if k == 'id'} - KEYWORDS)
                    continue
                if d.order not in seen:
                    seen[d.order] = d
                    work.extend({t for k, t, _ in tokens(opaque_text(d)) if k == 'id'} if n in opaque else d.ids)
        return [seen[k] for k in sorted(seen)]

    def slice(self, roots, stop=(), subst=None, opaque=(), sizes=None):
        out = []
        for d in self.closure(roots, stop, opaque):
            t = d.text
            if d.is_func and any(n in stop for n in d.defines):
                out.append(t[:t.index('{')] + ';')
                continue
            for n in opaque:
                if n in d.defines:
                    t = opaque_text(d, (sizes or {}).get(n))
            if subst:
                t = subst(d, t)
            out.append(t)
        return '\n'.join(out) + '\n'

    def functions(self):
        return {next(iter(d.defines)): d for d in self.decls if d.is_func and d.defines}
