"""which source functions and lines of /repo the executed IR blocks came from (line tables of the IR)"""
import re

NODE = re.compile(r'^!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DILexicalBlock|DILexicalBlockFile|DIFile|DINamespace)\((.*)\)$', re.M)
FLD = re.compile(r'(\w+): (?:!(\d+)|"([^"]*)"|(\d+))')


class DbgInfo:
    def __init__(self, text):
        self.n = {}
        for m in NODE.finditer(text):
            self.n[m.group(1)] = (m.group(2), m.group(3))
        self.c = {}

    def get(self, i):
        r = self.c.get(i)
        if r is None:
            k, s = self.n.get(i, (None, ''))
            r = (k, {m.group(1): (m.group(2) or m.group(3) or m.group(4)) for m in FLD.finditer(s)})
            self.c[i] = r
        return r

    def subprogram(self, i):
        while i is not None:
            k, d = self.get(i)
            if k == 'DISubprogram':
                return d
            i = d.get('scope')
        return None

    def file(self, d):
        k, f = self.get(d.get('file'))
        n = f.get('filename', '')
        if not n.startswith('/'):
            n = f.get('directory', '') + '/' + n
        return n

    def resolve(self, ids, prefix):
        funcs = set()
        lines = set()
        seen = set()
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in seen or i is None:
                continue
            seen.add(i)
            k, d = self.get(i)
            if k != 'DILocation':
                continue
            todo.append(d.get('inlinedAt'))
            sp = self.subprogram(d.get('scope'))
            if sp is None:
                continue
            fn = self.file(sp)
            if fn.startswith(prefix):
                mod = fn[len(prefix):].lstrip('/')
                nm = sp.get('linkageName') or sp.get('name')
                funcs.add((mod, sp.get('name'), int(sp.get('line', 0))))
                lines.add((mod, int(d.get('line', 0))))
        return funcs, lines
