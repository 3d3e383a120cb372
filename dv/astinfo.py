"""Class structure of the real headers, from clang's AST (names, bases, fields, methods).  Used to enumerate what is
put under contract; nothing about behaviour is taken from here."""
import json, os, re, subprocess, tempfile
from . import front


class Cls:
    pass


def load(headers, ns):
    """-> {qualified class name: Cls(name, bases, fields[(name,type)], methods[(name,type,virtual,pure,access,kind)])}"""
    src = ''.join('#include "%s"\n' % h for h in headers)
    with tempfile.TemporaryDirectory(prefix='dva_') as d:
        p = d + '/a.cc'
        open(p, 'w').write(src)
        r = subprocess.run(['clang++', '-std=c++14', '-fno-rtti', '-fno-exceptions', '-DNDEBUG', '-w'] + front.INC +
                           ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + ns + '::', p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise front.FrontError('ast dump failed: ' + r.stderr[-2000:])
    dec = json.JSONDecoder()
    t = r.stdout
    i = 0
    out = {}
    while True:
        while i < len(t) and t[i] != '{':
            i += 1
        if i >= len(t):
            break
        o, i = dec.raw_decode(t, i)
        visit(o, ns, out)
    return out


ENUMS = {}


def visit(o, prefix, out):
    if o.get('kind') == 'EnumDecl':
        v = 0
        l = []
        for x in o.get('inner', []):
            if x['kind'] == 'EnumConstantDecl':
                for y in x.get('inner', []):
                    if 'value' in y:
                        v = int(y['value'])
                        break
                l.append((x['name'], v))
                v += 1
        ENUMS[prefix + '::' + (o.get('name') or (l[0][0] if l else '?'))] = l
    if o.get('kind') == 'CXXRecordDecl' and o.get('completeDefinition') and o.get('name'):
        c = Cls()
        c.name = prefix + '::' + o['name']
        c.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in o.get('bases', [])]
        c.fields, c.methods = [], []
        c.abstract = bool(o.get('definitionData', {}).get('isAbstract'))
        acc = 'private' if o.get('tagUsed') == 'class' else 'public'
        for x in o.get('inner', []):
            k = x['kind']
            if k == 'AccessSpecDecl':
                acc = x['access']
            elif k == 'FieldDecl':
                c.fields.append((x.get('name', ''), x['type'].get('desugaredQualType', x['type']['qualType'])))
            elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and not x.get('isImplicit'):
                deleted = x.get('explicitlyDeleted') or x.get('deleted')
                c.methods.append(dict(name=x['name'], type=x['type']['qualType'], virtual=bool(x.get('virtual')), pure=bool(x.get('pure')),
                                      access=acc, kind=k, static=x.get('storageClass') == 'static', deleted=bool(deleted),
                                      body=any(y['kind'] == 'CompoundStmt' for y in x.get('inner', []))))
            elif k == 'CXXRecordDecl':
                visit(x, c.name, out)
        out[c.name] = c


def emit_tu(headers, classes):
    """translation unit that odr-uses every method so that inline bodies are emitted"""
    t = ''.join('#include "%s"\n' % h for h in headers)
    n = 0
    for c in classes.values():
        cnt = {}
        for m in c.methods:
            cnt[m['name']] = cnt.get(m['name'], 0) + 1
        for m in c.methods:
            if m['kind'] != 'CXXMethodDecl' or m['deleted'] or m['static'] or not m['body']:
                continue
            if cnt[m['name']] > 1:
                continue
            t += '__attribute__((used)) auto dvp_%d = &%s::%s;\n' % (n, c.name, m['name'])
            n += 1
    return t
