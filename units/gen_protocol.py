"""Extracts, with clang, every protocol struct and its members from dap/protocol.h (on each run) and
writes the table the C15 contracts quantify over. The DAP name of a member is its identifier, except
where the identifier cannot be used in C++ or the specification prefixes it (NAMES)."""
import json
import os
import re
import subprocess
NAMES = {('AttachRequest', 'restart'): '__restart', ('LaunchRequest', 'restart'): '__restart', ('*', 'def'): 'default'}


def structs(repo, inc=()):
    r = subprocess.run(['clang++', '-std=c++11', '-w', '-fsyntax-only', '-fno-exceptions', '-x', 'c++', '-'] + ['-I' + i for i in inc] +
                       ['-I' + repo + '/include', '-Xclang', '-ast-dump=json'],
                       input='#include "dap/protocol.h"\n', capture_output=True, text=True)
    if not r.stdout:
        raise RuntimeError(r.stderr[:2000])
    top = json.loads(r.stdout)
    recs, typed = {}, set()

    def walk(n):
        for c in n.get('inner', []):
            if c.get('kind') == 'NamespaceDecl' and c.get('name') == 'dap':
                walk(c)
            elif c.get('kind') == 'CXXRecordDecl' and c.get('completeDefinition') and 'name' in c:
                recs[c['name']] = dict(fields=[f['name'] for f in c.get('inner', []) if f.get('kind') == 'FieldDecl'],
                                       bases=[b['type']['qualType'].split('::')[-1] for b in c.get('bases', [])],
                                       response=[a['type']['qualType'].split('::')[-1] for a in c.get('inner', [])
                                                 if a.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and a.get('name') == 'Response'])
            elif c.get('kind') == 'ClassTemplateSpecializationDecl' and c.get('name') == 'TypeOf':
                if any(m.get('name') == 'serializeFields' for m in c.get('inner', [])):
                    for m in c.get('inner', []):
                        if m.get('kind') == 'TemplateArgument':
                            typed.add(m['type']['qualType'].split('::')[-1])
    walk(top)
    out = {}
    for t in sorted(typed):
        if t in recs:
            out[t] = recs[t]
    return out, recs


def table(repo, inc=()):
    st, recs = structs(repo, inc)

    def members(t):
        r = []
        for b in recs.get(t, {}).get('bases', []):
            r += members(b)
        return r + [(f, NAMES.get((t, f), NAMES.get(('*', f), f))) for f in recs.get(t, {}).get('fields', [])]

    def kind(t):
        b = recs[t]['bases']
        for k in ('Request', 'Event', 'Response'):
            if k in b:
                return k
        return 'Type'
    o = ['// generated from dap/protocol.h']
    o += ['template <> struct Of<dap::%s> { typedef dap::%s T; static const Ty* ty(); };' % (t, t) for t in st]
    for t in st:
        ms = members(t)
        k = kind(t)
        wire = ''
        if k in ('Request', 'Event'):
            s = t[:-len(k)]
            wire = s[0].lower() + s[1:]
        o.append('inline const Ty* Of<dap::%s>::ty() {' % t)
        o.append('  static const Mem m[] = { %s { 0, 0, 0, 0 } }; static const Ty t = { TAG(T), "%s", %d, m, true }; return &t; }' % (
            ' '.join('{ "%s", __builtin_offsetof(T, %s), sizeof(T::%s), &Of<decltype(T::%s)>::ty },' % (n, f, f, f) for f, n in ms), t, len(ms)))
        if wire:
            o.append('#define WIRE_%s "%s"' % (t, wire))
    o.append('#define PROTOCOL_STRUCTS(X) ' + ' '.join('X(%s)' % t for t in st))
    o.append('#define PROTOCOL_NAMED(X) ' + ' '.join('X(%s, WIRE_%s)' % (t, t) for t in st if kind(t) in ('Request', 'Event')))
    o.append('#define PROTOCOL_PAIRS(X) ' + ' '.join('X(%s, %s)' % (t, t[:-7] + 'Response') for t in st if kind(t) == 'Request'))
    n = 12
    names = sorted(st, key=lambda t: -len(members(t)))
    for i in range(n):
        o.append('#define PROTOCOL_BATCH_%d(X) ' % i + ' '.join('X(%s)' % t for t in names[i::n]))
    return '\n'.join(o) + '\n'


def field_struct(repo):
    """the text of struct Field, as it stands in the real header"""
    t = open(repo + '/include/dap/serialization.h').read()
    m = re.search(r'^struct Field \{.*?^\};', t, re.S | re.M)
    if not m:
        raise RuntimeError('struct Field not found in serialization.h')
    return m.group(0)


def generate(repo, out, inc=()):
    open(os.path.join(out, 'protocol_table.h'), 'w').write(table(repo, inc))
    open(os.path.join(out, 'protocol_field.h'), 'w').write('namespace dap {\n' + field_struct(repo) + '\n}\n')


if __name__ == '__main__':
    import sys
    generate(sys.argv[1], sys.argv[2], ['/verif/spec/std'])
