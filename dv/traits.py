"""Compile-time traits inside ordinary expressions (std::is_same<..>::value, heffte's own true/false traits).
clang's JSON does not print the qualifier of such a name, so the source text of the expression is read at the
position clang reports and evaluated with the template arguments of the instantiation being verified."""
import re, subprocess
from .values import Unsupported, split_args

_src = {}
_dem = {}


def text_of(n):
    r = n.d.get('range') or {}
    b, e = r.get('begin') or {}, r.get('end') or {}
    # the argument of a macro: its text is where it is spelled, in the file that expands the macro
    if 'spellingLoc' in b and 'spellingLoc' in e and (b.get('expansionLoc') or {}).get('isMacroArgExpansion', b['spellingLoc'].get('isMacroArgExpansion', True)):
        b, e = b['spellingLoc'], e['spellingLoc']
    if 'offset' not in b or 'offset' not in e or not n.file:
        raise Unsupported('trait value without a source position')
    if n.file not in _src:
        _src[n.file] = open(n.file, 'rb').read()
    return re.sub(r'\s+', ' ', _src[n.file][b['offset']:e['offset'] + e.get('tokLen', 1)].decode('utf8', 'replace')).strip()


def demangled_args(fn):
    m = fn.d.get('mangledName')
    if not m:
        return None
    if m not in _dem:
        _dem[m] = subprocess.run(['c++filt', m], capture_output=True, text=True).stdout.strip()
    s = _dem[m]
    # the template argument list of the function's own name
    k = s.find((fn.name or '') + '<')
    if k < 0:
        return None
    i = k + len(fn.name)
    d = 0
    for j in range(i, len(s)):
        d += {'<': 1, '>': -1}.get(s[j], 0)
        if d == 0:
            return split_args(s[i + 1:j])
    return None


def params(tmpl):
    return [c.name for c in tmpl.kids if c is not None and c.k in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl', 'TemplateTemplateParmDecl')]


class Scope:
    def __init__(self, eng, fn):
        self.ast, self.env, self.classes = eng.ast, {}, []
        self.eng = eng
        x = fn
        while x is not None:
            p = x.parent
            if p is not None and p.k in ('FunctionTemplateDecl', 'ClassTemplateDecl') and x.k != 'CXXRecordDecl':
                a = self.ast.targs(x)
                if '?' in a:
                    b = demangled_args(x) if p.k == 'FunctionTemplateDecl' else None
                    if b and len(b) >= len(a):
                        a = b
                for nm, v in zip(params(p), a):
                    self.env.setdefault(nm, v)
            if x.k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
                self.classes.append(x)
                if x.k == 'ClassTemplateSpecializationDecl' and not (p is not None and p.k == 'ClassTemplateDecl'):
                    t = self.template(x)
                    if t is not None:
                        for nm, v in zip(params(t), self.ast.targs(x)):
                            self.env.setdefault(nm, v)
            x = p

    def template(self, spec):
        q = re.sub('<.*', '', spec.d.get('_q') or '')
        for r in self.ast.roots:
            todo = [r]
            while todo:
                y = todo.pop()
                if y.k == 'ClassTemplateDecl' and y.name == q.split('::')[-1]:
                    return y
                if y.k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
                    todo += [k for k in y.kids if k is not None]
        return None

    def norm(self, t):
        t = re.sub(r'\b(typename|struct|class|const)\b', '', t)
        return re.sub(r'\bheffte::|\bstd::', '', t).replace(' ', '')

    def alias(self, cls, nm):
        for k in cls.kids:
            if k is not None and k.k in ('TypeAliasDecl', 'TypedefDecl') and k.name == nm:
                return k.qt
        for b in cls.d.get('bases', ()):
            t = (b.get('type') or {})
            c = self.eng.cls(t.get('desugaredQualType') or t.get('qualType') or '')
            if c is not None:
                r = self.alias(c, nm)
                if r:
                    return r
        return None

    def type(self, t):
        t = re.sub(r'\b(typename|struct|class|template)\b', '', t).strip()
        if t in self.env:
            return self.norm(self.env[t])
        for c in self.classes:
            a = self.alias(c, t)
            if a:
                return self.norm(a)
        m = re.match(r'^(.*>)\s*::\s*(\w+)$', t)
        if m:
            base = self.type(m.group(1))
            c = self.find_cls(base)
            if c is not None:
                a = self.alias(c, m.group(2))
                if a:
                    return self.norm(a)
            raise Unsupported('type ' + t)
        m = re.match(r'^([\w:]+)\s*<(.*)>$', t)
        if m:
            head = self.env.get(m.group(1), m.group(1))
            return '%s<%s>' % (self.norm(head), ','.join(self.type(a) for a in split_args(m.group(2))))
        if re.match(r'^[\w:]+$', t):
            return self.norm(t)
        raise Unsupported('type ' + t)

    def find_cls(self, nm):
        key = nm.replace(' ', '')
        for q, c in self.ast.classes.items():
            if self.norm(q) == key:
                return c
        return None

    def truth(self, text):
        m = re.match(r'^(?:std\s*::\s*)?is_same\s*<(.*)>\s*::\s*value$', text)
        if m:
            a = split_args(m.group(1))
            if len(a) == 2:
                return self.type(a[0]) == self.type(a[1])
        m = re.match(r'^([\w:]+)\s*(<.*>)?\s*::\s*value$', text)
        if m:
            nm = self.env.get(m.group(1))
            c = self.find_cls(self.norm(nm)) if nm else None
            if c is None and m.group(2):
                c = self.find_cls(self.type(m.group(1) + m.group(2)))
            if c is None:
                c = self.find_cls(self.norm(m.group(1)))
            if c is None and nm in ('std::integral_constant<bool, true>', 'std::true_type'):
                return True
            if c is None and nm in ('std::integral_constant<bool, false>', 'std::false_type'):
                return False
            for b in (c.d.get('bases', ()) if c is not None else ()):
                t = (b.get('type') or {})
                t = t.get('desugaredQualType') or t.get('qualType') or ''
                if re.search(r'true_type|integral_constant<bool, true>', t):
                    return True
                if re.search(r'false_type|integral_constant<bool, false>', t):
                    return False
        raise Unsupported('trait value ' + text[:80])


def value(eng, n):
    for f in reversed(eng.frames):
        if f.fn is not None:
            return Scope(eng, f.fn).truth(text_of(n))
    raise Unsupported('trait value outside a function')
