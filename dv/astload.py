"""Front end: obtain clang's AST of /repo's *current* sources (every run) and index it.

A driver translation unit written under a scratch directory includes the real headers and
sources of /repo and explicitly instantiates the templates; nothing is copied or rewritten.
"""
import json, os, subprocess, sys, tempfile, shutil, re, hashlib

REPO = os.environ.get('HEFFTE_REPO', '/repo')
INC = ['-I%s/include' % REPO, '-I%s/_build/include' % REPO, '-I%s/src' % REPO,
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '-isystem', '/usr/include/mkl']


class FrontEndError(Exception):
    pass


def config_dir(scratch):
    """_build/include/heffte_config.h is a build product; fall back to a generated copy if absent."""
    if os.path.exists(REPO + '/_build/include/heffte_config.h'):
        return []
    d = os.path.join(scratch, 'cfg')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(os.path.dirname(__file__), 'heffte_config.fallback.h'), d + '/heffte_config.h')
    return ['-I' + d]


class Node:
    __slots__ = ('k', 'd', 'kids', 'parent', 'line', 'file')

    def __init__(self, d, parent):
        self.k = d.get('kind')
        self.d = d
        self.parent = parent
        self.kids = []
        self.line = None
        self.file = None

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.k, self.d.get('name', ''), os.path.basename(self.file or '?'), self.line)

    @property
    def name(self):
        return self.d.get('name')

    @property
    def id(self):
        return self.d.get('id')

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def qt(self):
        t = self.d.get('type') or {}
        return t.get('desugaredQualType') or t.get('qualType') or ''

    @property
    def qtraw(self):
        t = self.d.get('type') or {}
        return t.get('qualType') or ''


SKIP = {'FullComment'}


class AST:
    def __init__(self, roots):
        self.byid = {}
        self.funcs = {}     # qualified name -> [Node] with bodies
        self.classes = {}   # canonical class name (with args) -> Node
        self.roots = []
        self.cur = {'file': None, 'line': None}
        for r in roots:
            self.roots.append(self._build(r, None))
        self.qn = {}
        for r in self.roots:
            self._index(r, [])

    def _loc(self, n, d):
        # clang omits file/line when unchanged w.r.t. the previously printed location
        def upd(l):
            if not l:
                return None
            if 'spellingLoc' in l or 'expansionLoc' in l:
                upd(l.get('spellingLoc'))
                return upd(l.get('expansionLoc'))
            if 'file' in l:
                self.cur['file'] = l['file']
            if 'line' in l:
                self.cur['line'] = l['line']
            if l:
                return (self.cur['file'], self.cur['line'])
            return None
        r = upd(d.get('loc'))
        rng = d.get('range') or {}
        b = upd(rng.get('begin'))
        upd(rng.get('end'))
        n.file, n.line = (r or b or (self.cur['file'], self.cur['line']))

    def _build(self, d, parent):
        n = Node(d, parent)
        self._loc(n, d)
        for c in d.get('inner', ()):
            if not c:
                n.kids.append(None)
                continue
            if c.get('kind') is None:
                n.kids.append(None)
                continue
            if c['kind'] in SKIP:
                # still walk locations (comments carry locations too)
                self._skiploc(c)
                continue
            n.kids.append(self._build(c, n))
        d.pop('inner', None)
        if n.id and ('Decl' in (n.k or '')):
            # a bare reference (as printed in a list of instantiations) never hides the declaration itself
            if n.id not in self.byid or (n.k.endswith('Decl') and ('loc' in n.d or 'loc' not in self.byid[n.id].d)):
                self.byid[n.id] = n
        return n

    def _skiploc(self, d):
        class T:  # dummy
            pass
        self._loc(T(), d)
        for c in d.get('inner', ()):
            if c:
                self._skiploc(c)

    def _cls(self, n):
        nm = n.name
        if n.k == 'ClassTemplateSpecializationDecl':
            args = []
            for c in n.kids:
                if c is not None and c.k == 'TemplateArgument':
                    a = c.d
                    if 'type' in a:
                        args.append(a['type'].get('desugaredQualType') or a['type']['qualType'])
                    elif 'value' in a:
                        args.append(str(a['value']))
                    else:
                        k = [x for x in c.kids if x]
                        args.append(k[0].name if k and k[0].name else '?')
            nm = '%s<%s>' % (nm, ', '.join(args))
        return nm

    def _index(self, n, scope):
        if n is None:
            return
        if n.k in ('NamespaceDecl',):
            sc = scope + [n.name] if n.name else scope
            for c in n.kids:
                self._index(c, sc)
            return
        if n.k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'ClassTemplatePartialSpecializationDecl'):
            if n.name:
                nm = self._cls(n)
                q = '::'.join(scope + [nm])
                dup = self.classes.get(q)
                if any(c is not None and c.k not in ('TemplateArgument',) for c in n.kids) and (dup is None or len(dup.kids) < len(n.kids)):
                    if n.d.get('completeDefinition') or dup is None:
                        self.classes[q] = n
                n.d['_q'] = q
                for c in n.kids:
                    self._index(c, scope + [nm])
                return
        if n.k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            sc = scope
            pid = n.d.get('parentDeclContextId')
            if pid and pid in self.byid and '_q' in self.byid[pid].d:
                sc = [self.byid[pid].d['_q']]
            q = '::'.join(sc + [n.name or ''])
            n.d['_q'] = q
            self.funcs.setdefault(q, []).append(n)
        for c in n.kids:
            self._index(c, scope)

    def body(self, fn):
        for c in fn.kids:
            if c is not None and c.k in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    def definition(self, fn):
        """Follow redeclarations to the node that has the body."""
        if fn is None:
            return None
        if self.body(fn) is not None:
            return fn
        cand = self.funcs.get(fn.d.get('_q'), [])
        mn = fn.d.get('mangledName')
        for c in cand:
            if self.body(c) is not None and mn and c.d.get('mangledName') == mn:
                return c
        for c in cand:
            if self.body(c) is not None and c.d.get('previousDecl') == fn.id:
                return c
        if mn:
            for q, l in self.funcs.items():
                for c in l:
                    if c.d.get('mangledName') == mn and self.body(c) is not None:
                        return c
        return None

    def params(self, fn):
        return [c for c in fn.kids if c is not None and c.k == 'ParmVarDecl']

    def targs(self, fn):
        r = []
        for c in fn.kids:
            if c is not None and c.k == 'TemplateArgument':
                a = c.d
                if 'type' in a:
                    r.append(a['type'].get('desugaredQualType') or a['type']['qualType'])
                elif 'value' in a:
                    r.append(str(a['value']))
                else:
                    k = [x for x in c.kids if x]
                    r.append(k[0].name if k and k[0].name else '?')
        return r

    def is_template_pattern(self, fn):
        p = fn.parent
        if p is not None and p.k == 'FunctionTemplateDecl':
            fs = [c for c in p.kids if c is not None and c.k == fn.k]
            if fs and fs[0] is fn:
                return True
        while p is not None:
            if p.k == 'CXXRecordDecl' and p.parent is not None and p.parent.k == 'ClassTemplateDecl':
                return True
            if p.k == 'ClassTemplatePartialSpecializationDecl':
                return True
            p = p.parent
        return False

    def find(self, qname, targs=None, sig=None, inst=True):
        """Definitions (with bodies) of a function by qualified name; optionally filtered."""
        out = []
        for q, l in self.funcs.items():
            if q != qname and not (qname.endswith('*') and not qname.endswith('operator*') and q.startswith(qname[:-1])):
                continue
            for f in l:
                if self.body(f) is None:
                    continue
                if inst and self.is_template_pattern(f):
                    continue
                if targs is not None and self.targs(f)[:len(targs)] != list(targs):
                    continue
                if sig is not None and not re.search(sig, (f.d.get('type') or {}).get('qualType', '')):
                    continue
                out.append(f)
        return out


DRIVER_COMMON = '''#include "heffte.h"
'''


def load(driver_text, extra=(), keep=None, filt='heffte'):
    scratch = tempfile.mkdtemp(prefix='dvast.')
    try:
        src = os.path.join(scratch, 'driver.cpp')
        open(src, 'w').write(driver_text)
        cmd = (['clang++', '-std=gnu++17', '-O0', '-mfma', '-mavx', '-fsyntax-only', '-w'] + config_dir(scratch) + INC + list(extra) +
               ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, src])
        out = os.path.join(scratch, 'ast.json')
        with open(out, 'w') as fo:
            p = subprocess.run(cmd, stdout=fo, stderr=subprocess.PIPE, text=True, timeout=300)
        if p.returncode != 0:
            raise FrontEndError('clang rejected the sources: ' + p.stderr[:2000])
        s = open(out).read()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    dec = json.JSONDecoder()
    i, roots = 0, []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        roots.append(o)
    del s
    return AST(roots)
