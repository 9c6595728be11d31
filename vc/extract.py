"""Mechanical extraction of the repository's functions from clang's AST.

Every run regenerates the AST from /repo's current text: for each source file a
translation unit is generated that first includes every external header and then
includes the repository file inside `namespace vrf_repo { ... }` (so that clang's
-ast-dump-filter selects exactly the repository's declarations, whatever they are
called).  Nothing else is changed: the parsed text is the file in /repo.
"""
import json, os, re, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
NS = 'vrf_repo'
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
FLAGS = ['-std=c++17', '-DFMT_HEADER_ONLY', '-w']

class ExtractError(Exception):
    pass

def _sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.h', '.hpp', '.cpp')):
                out.append(os.path.join(d, f))
    return sorted(out)

def external_includes():
    inc = []
    for f in _sources():
        if os.path.basename(f).startswith('broker_core'):
            continue
        for line in open(f, errors='replace'):
            m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)[>"]', line)
            if not m:
                continue
            if m.group(1) == '"' and os.path.exists(os.path.join(os.path.dirname(f), m.group(2))):
                continue
            h = '#include <%s>' % m.group(2)
            if h not in inc:
                inc.append(h)
    # headers that repository headers use without including them themselves
    for h in ['<chrono>', '<list>', '<sstream>', '<iterator>', '<algorithm>', '<set>', '<numeric>', '<optional>', '<utility>', '<stdexcept>', '<tuple>', '<cstdint>']:
        if '#include ' + h not in inc:
            inc.append('#include ' + h)
    return ['#define BOOST_FILESYSTEM_NO_DEPRECATED', '#define BOOST_NO_CXX11_SCOPED_ENUMS'] + inc

def tu_text(files, extra=''):
    t = external_includes()
    t.append('namespace %s {' % NS)
    for f in files:
        t.append('#include "%s"' % os.path.join(REPO, f))
    t.append(extra)
    t.append('}')
    return '\n'.join(t) + '\n'

class Node:
    __slots__ = ('kind', 'id', 'd', 'inner', 'line', 'file', 'parent')
    def __init__(self, d):
        self.d = d
        self.kind = d.get('kind')
        self.id = d.get('id')
        self.inner = []
        self.line = None
        self.file = None
        self.parent = None
    def get(self, k, default=None):
        return self.d.get(k, default)
    @property
    def name(self):
        return self.d.get('name')
    @property
    def type(self):
        t = self.d.get('type') or {}
        return t.get('desugaredQualType') or t.get('qualType')
    @property
    def qtype(self):
        t = self.d.get('type') or {}
        return t.get('qualType')
    def find(self, kind):
        for n in self.walk():
            if n.kind == kind:
                yield n
    def walk(self):
        yield self
        for c in self.inner:
            yield from c.walk()

class _Loc:
    def __init__(self):
        self.file = None
        self.line = None

def _bare(l, st):
    if not isinstance(l, dict):
        return
    if 'spellingLoc' in l or 'expansionLoc' in l:
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                _bare(l[k], st)
        return
    if 'file' in l:
        st.file = l['file']
    if 'line' in l:
        st.line = l['line']

def _conv(d, st, parent=None):
    n = Node(d)
    n.parent = parent
    if 'loc' in d:
        _bare(d['loc'], st)
    n.file, n.line = st.file, st.line
    r = d.get('range')
    if r:
        _bare(r.get('begin'), st)
        if 'loc' not in d or not d['loc']:
            n.file, n.line = st.file, st.line
        _bare(r.get('end'), st)
    for k, v in d.items():
        if k in ('loc', 'range', 'inner'):
            continue
    for c in d.get('inner', []):
        n.inner.append(_conv(c, st, n))
    return n

def dump(files, extra=''):
    """Parse a translation unit made of the given repository files."""
    with tempfile.TemporaryDirectory() as td:
        src = os.path.join(td, 'tu.cpp')
        open(src, 'w').write(tu_text(files, extra))
        p = subprocess.run([CLANG] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=' + NS, src], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=td, timeout=300)
        if p.returncode != 0:
            raise ExtractError('clang failed on %s:\n%s' % (files, p.stderr.decode(errors='replace')[:3000]))
        txt = p.stdout.decode(errors='replace')
    dec = json.JSONDecoder()
    i = 0
    roots = []
    st = _Loc()
    while i < len(txt):
        while i < len(txt) and txt[i] in ' \n\r\t':
            i += 1
        if i >= len(txt):
            break
        o, j = dec.raw_decode(txt, i)
        i = j
        roots.append(_conv(o, st))
    return roots

FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class Program:
    """All repository declarations of one translation unit."""
    def __init__(self, roots, files):
        self.files = files
        self.by_id = {}
        self.classes = {}      # name -> definition node
        self.funcs = {}        # qualified name -> [nodes with body]
        self.decl_parent = {}
        self.prev = {}
        self.globals = {}
        for r in roots:
            self._index(r, [])
        # definitions by canonical chain
        self.def_of = {}
        for n in list(self.by_id.values()):
            if n.kind in FUNC_KINDS and self.body(n) is not None:
                x = n
                seen = set()
                while x is not None and x.id not in seen:
                    seen.add(x.id)
                    self.def_of[x.id] = n
                    pid = x.get('previousDecl')
                    x = self.by_id.get(pid) if pid else None

    def body(self, n):
        for c in n.inner:
            if c.kind in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    def _index(self, n, path):
        if n.id:
            self.by_id.setdefault(n.id, n)
        p = path
        if n.kind == 'NamespaceDecl':
            nm = n.name
            p = path if (nm == NS or nm is None) else path + [nm]
        elif n.kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            p = path + [n.name or '<anon>']
            if n.get('completeDefinition'):
                key = '::'.join(p)
                if n.kind == 'ClassTemplateSpecializationDecl' or key not in self.classes:
                    self.classes[key] = n
        elif n.kind == 'ClassTemplateDecl':
            # only instantiations are of interest
            for c in n.inner:
                if c.kind == 'ClassTemplateSpecializationDecl':
                    self._index(c, path)
                elif c.kind == 'CXXRecordDecl':
                    self._ids(c)
            return
        elif n.kind == 'FunctionTemplateDecl':
            for c in n.inner:
                if c.kind in FUNC_KINDS and any(x.kind == 'TemplateArgument' for x in c.inner):
                    self._index(c, path)
                else:
                    self._ids(c)
            return
        elif n.kind in FUNC_KINDS:
            # out-of-line definitions: qualify by the semantic parent
            q = path
            pc = n.get('parentDeclContextId')
            if pc and pc in self.decl_parent:
                q = self.decl_parent[pc]
            elif n.get('previousDecl') in self.decl_parent:
                q = self.decl_parent[n.get('previousDecl')]
            self.decl_parent[n.id] = q
            n.d['_qual'] = '::'.join(q + [n.name or ''])
            n.d['_cls'] = '::'.join(q)
            self.funcs.setdefault(n.d['_qual'], []).append(n)
        elif n.kind == 'VarDecl':
            q = path
            if n.get('previousDecl') in self.decl_parent:
                q = self.decl_parent[n.get('previousDecl')]
            self.decl_parent[n.id] = q
            n.d['_qual'] = '::'.join(q + [n.name or ''])
            if n.inner:
                self.globals[n.d['_qual']] = n
        if n.kind in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'NamespaceDecl'):
            self.decl_parent[n.id] = p
        for c in n.inner:
            self._index(c, p)

    def _ids(self, n):
        for x in n.walk():
            if x.id:
                self.by_id.setdefault(x.id, x)

    def find(self, qual):
        """Definitions of a function given its qualified name."""
        return [n for n in self.funcs.get(qual, []) if self.body(n) is not None]

def load(files, extra=''):
    return Program(dump(files, extra), files)
