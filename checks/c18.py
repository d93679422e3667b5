"""C18: the declared, the exported and the versioned interface agree."""
import fnmatch
import json
import os
import re
import subprocess
import tempfile

from tsa import ir, load
from .common import Check

RULE = ('the functions declared in the public header (clang syntax tree), the definitions with default visibility (LLVM IR of all library sources '
        'compiled with hidden default visibility), and the names in the linker version script are enumerated and compared both ways; every '
        'definition must see the public prototype; constants kept twice must agree; the header must compile alone as C and as C++ and declare '
        'unmangled names')


def clang(args, text, lang='c', std='gnu99'):
    with tempfile.TemporaryDirectory(prefix='tsa-') as tmp:
        cfg = os.path.join(tmp, 'config.h')
        open(cfg, 'w').write(load.config_h())
        if text.endswith('.c') and '\n' not in text:
            src = text
        else:
            src = os.path.join(tmp, 't.c' if lang == 'c' else 't.cc')
            open(src, 'w').write(text)
        fl = [f for f in load.flags() if f not in ('-S', '-emit-llvm', '-g') and not f.startswith('-std')]
        return subprocess.run([load.CLANG, '-x', lang, '-std=' + std] + fl + ['-I' + load.REPO + '/external/xkbcommon', '-include', cfg] + args + [src],
                              capture_output=True, text=True)


def decls(text):
    """every function declaration of a translation unit: (name, type, file, is definition, storage, id, previous id)"""
    r = clang(['-fsyntax-only', '-Xclang', '-ast-dump=json'], text)
    if r.returncode:
        raise ir.IRError('cannot parse %s: %s' % (text[:60], r.stderr[-400:]))
    out, cur = [], [None]

    def loc(n):
        # file names are only given when they change, in document order
        for part in (n.get('loc') or {}, (n.get('range') or {}).get('begin') or {}, (n.get('range') or {}).get('end') or {}):
            for q in (part.get('spellingLoc') or {}, part.get('expansionLoc') or {}, part):
                if 'file' in q:
                    cur[0] = q['file']

    def walk(n, top):
        l = n.get('loc') or {}
        q = l.get('expansionLoc') or l
        before = cur[0]
        for z in ((l.get('spellingLoc') or {}), (l.get('expansionLoc') or {}), l):
            if 'file' in z:
                cur[0] = z['file']
        f = q.get('file', cur[0]) if q.get('file') else cur[0]
        del before
        loc(n)
        if top and n.get('kind') == 'FunctionDecl':
            body = any(k.get('kind') == 'CompoundStmt' for k in n.get('inner', ()))
            out.append((n['name'], n['type']['qualType'], f, body, n.get('storageClass'), n['id'], n.get('previousDecl')))
        kids = n.get('inner', ())
        for k in kids:
            walk(k, n.get('kind') in ('TranslationUnitDecl', 'LinkageSpecDecl'))

    walk(json.loads(r.stdout), False)
    return out


def script(path):
    """[(node, parent, section, pattern)] of a GNU version script"""
    t = re.sub(r'/\*.*?\*/', ' ', open(path).read(), flags=re.S)
    t = re.sub(r'#[^\n]*', ' ', t)
    out, nodes = [], []
    pos = 0
    for m in re.finditer(r'(\w+)\s*\{(.*?)\}\s*(\w*)\s*;', t, re.S):
        if t[pos:m.start()].strip():
            raise ir.IRError('version script: cannot parse %r' % t[pos:m.start()].strip()[:60])
        pos = m.end()
        nodes.append((m.group(1), m.group(3) or None))
        sec = 'global'
        for w in re.findall(r'(?:global|local)\s*:|[^\s;:]+', m.group(2)):
            if w.rstrip().endswith(':'):
                sec = w.split(':')[0].strip()
            else:
                out.append((m.group(1), sec, w))
    if t[pos:].strip():
        raise ir.IRError('version script: cannot parse %r' % t[pos:].strip()[:60])
    return nodes, out


def defines(text):
    r = clang(['-E', '-dM'], text)
    if r.returncode:
        raise ir.IRError('cannot preprocess: ' + r.stderr[-300:])
    return dict(re.findall(r'^#define (\w+) (.*)$', r.stdout, re.M))


def values(text, names):
    """{name: value} of integer constant expressions in the scope of the text"""
    out = {}
    r = clang(['-S', '-emit-llvm', '-o', '-'], text + '\n' + '\n'.join('long long val_%s = %s;' % (x, x) for x in names))
    if r.returncode:
        raise ir.IRError('cannot evaluate constants: ' + r.stderr[-300:])
    out = {k: int(v) for k, v in re.findall(r'^@val_(\w+) = .*?global i64 (-?\d+)', r.stdout, re.M)}
    return out


def consts(text, *pre):
    return values(text, sorted(k for k in defines(text) if k.startswith(pre)))


def enums(text):
    """{enum name: {enumerator: value}} by compiling the enumerators' values into a table"""
    r = clang(['-fsyntax-only', '-Xclang', '-ast-dump=json'], text)
    if r.returncode:
        raise ir.IRError('cannot parse: ' + r.stderr[-300:])
    out = {}

    def walk(n):
        if n.get('kind') == 'EnumDecl' and n.get('inner'):
            out.setdefault(n.get('name') or n['id'], []).extend(k['name'] for k in n['inner'] if k.get('kind') == 'EnumConstantDecl')
        for k in n.get('inner', ()):
            walk(k)
    walk(json.loads(r.stdout))
    names = [x for v in out.values() for x in v]
    vals = values(text, names)
    return {k: {x: int(vals[x]) for x in v} for k, v in out.items()}


def check(Check_):
    c = Check_('C18', 'proof', RULE)
    R = load.REPO
    hdr, sym = R + '/src/tsm/libtsm.h', R + '/src/tsm/libtsm.sym'
    for f in (hdr, sym):
        if not os.path.exists(f):
            raise ir.IRError('anchor: %s is missing' % f)

    # what the public header declares, taken alone, as C and as C++
    alone = '#include "libtsm.h"\n'
    for std, lang in (('c99', 'c'), ('gnu99', 'c'), ('c++11', 'c++')):
        r = clang(['-fsyntax-only'], alone, lang, std)
        c.ob('header compiles alone', r.returncode == 0, std, 'libtsm.h does not compile alone as %s: %s' % (std, r.stderr[-300:]))
    public = {}
    for n, ty, f, body, sc, i, prev in decls(alone):
        if f and os.path.basename(f) == 'libtsm.h':
            c.ob('header declares only', not body, n, 'libtsm.h defines %s' % n)
            c.ob('header declares external functions', sc != 'static', n, 'libtsm.h declares the static function %s' % n)
            public[n] = ty
    r = clang(['-S', '-emit-llvm', '-o', '-'], alone + 'void *all[] = {%s};\n' % ','.join('(void*)%s' % n for n in sorted(public)), 'c++', 'c++11')
    plain = set(re.findall(r'^declare .*@(\w+)\(', r.stdout, re.M)) if r.returncode == 0 else set()
    for n in sorted(public):
        c.ob('usable from C++', n in plain, n, 'a C++ program does not link with %s: libtsm.h declares it with C++ linkage' % n)

    # what the sources define and export
    exported, defined = {}, {}
    for s in load.sources(load.LIB):
        rel = os.path.relpath(s, R)
        with tempfile.TemporaryDirectory(prefix='tsa-') as tmp:
            cfg = os.path.join(tmp, 'config.h')
            open(cfg, 'w').write(load.config_h())
            r = subprocess.run([load.CLANG] + load.flags() + ['-include', cfg, s, '-o', '-'], capture_output=True, text=True)
        if r.returncode:
            raise ir.IRError('cannot compile %s: %s' % (rel, r.stderr[-300:]))
        vis = {}
        for m in re.finditer(r'^define ([^@]*)@"?([\w.$]+)"?\(', r.stdout, re.M):
            q = m.group(1).split()
            vis[m.group(2)] = 'internal' not in q and 'private' not in q and 'hidden' not in q and 'protected' not in q
            if 'internal' not in q and 'private' not in q:
                defined.setdefault(m.group(2), []).append(rel)
        for m in re.finditer(r'^@"?([\w.$]+)"? = ([^\n]*?)\b(global|constant|alias)\b', r.stdout, re.M):
            q = m.group(2).split()
            if 'external' in q or 'extern_weak' in q or 'private' in q or 'internal' in q or 'hidden' in q:
                continue
            c.ob('exported data is declared', m.group(1) in public, m.group(1), '%s exports the object %s, which the header does not declare' % (rel, m.group(1)))
        ds = decls(s)
        ids = {i: (n, ty, f) for n, ty, f, body, sc, i, prev in ds}
        for n, ty, f, body, sc, i, prev in ds:
            if not body or not vis.get(n):
                continue
            exported[n] = rel
            if n in public:
                seen = [d for d in ds if d[0] == n and d[2] and os.path.basename(d[2]) == 'libtsm.h']
                # a definition that sees the prototype has its type, or it would not compile
                same = re.sub(r'\b_Bool\b', 'bool', ty) == re.sub(r'\b_Bool\b', 'bool', public[n])
                c.ob('definition has the declared type', bool(seen) or same, n,
                     '%s defines %s as "%s" without seeing libtsm.h, which declares "%s"' % (rel, n, ty, public[n]))
        for n, v in vis.items():
            if v:
                exported.setdefault(n, rel)

    nodes, pats = script(sym)
    listed = {}
    names = [n for n, _ in nodes]
    for n, parent in nodes:
        c.ob('version nodes are distinct', names.count(n) == 1, n, 'version node %s occurs twice' % n)
        c.ob('version chain', parent is None or (parent in names and names.index(parent) < names.index(n)), n,
             'version node %s depends on %s, which is not defined before it' % (n, parent))
        c.ob('version chain', parent is not None or n == names[0], n, 'version node %s does not depend on an earlier one' % n)
    for node, sec, p in pats:
        if sec == 'global':
            hits = [n for n in exported if fnmatch.fnmatchcase(n, p)]
            c.ob('version script lists existing functions', bool(hits), p, '%s lists %s, which is not an exported function' % (node, p))
            exact = [p] if not re.search(r'[*?\[]', p) else hits
            for n in exact:
                c.ob('one version per function', n not in listed, n, '%s is listed in %s and %s' % (n, listed.get(n), node))
                listed[n] = node
    c.ob('everything else is local', any(sec == 'local' and p == '*' for _, sec, p in pats), 'libtsm.sym', 'the version script does not hide what it does not list')

    for n in sorted(public):
        c.ob('declared functions are exported', n in exported, n,
             'libtsm.h declares %s, but %s' % (n, 'no library source defines it' if n not in defined else 'its definition in %s has hidden visibility' % defined[n][0]))
        c.ob('declared functions are versioned', n in listed, n, 'libtsm.h declares %s, but libtsm.sym does not list it' % n)
        c.ob('one definition', len(defined.get(n, ())) <= 1, n, '%s is defined more than once: %s' % (n, defined.get(n)))
    for n in sorted(exported):
        c.ob('exported functions are declared', n in public, n, '%s exports %s, which libtsm.h does not declare' % (exported[n], n))
        c.ob('exported functions are versioned', n in listed, n, '%s exports %s, which libtsm.sym does not list' % (exported[n], n))

    # constants kept in two places
    H = consts(alone, 'TSM_VTE_', 'TSM_SCREEN_', 'TSM_MOUSE_')
    V = consts(open(R + '/src/tsm/tsm-vte.c').read(), 'FLAG_')
    pub = {k[len('TSM_VTE_FLAG_'):]: v for k, v in H.items() if k.startswith('TSM_VTE_FLAG_')}
    own = {k[len('FLAG_'):]: v for k, v in V.items() if k.startswith('FLAG_')}
    if own:
        for k in sorted(set(pub) | set(own)):
            c.ob('terminal flags agree', k in pub and pub[k] == own.get(k), k,
                 'TSM_VTE_FLAG_%s is %s, FLAG_%s is %s' % (k, pub.get(k), k, own.get(k)))
    for pre in ('TSM_VTE_FLAG_', 'TSM_SCREEN_', 'TSM_MOUSE_MODIFIER_', 'TSM_MOUSE_EVENT_'):
        grp = {k: v for k, v in H.items() if k.startswith(pre)}
        c.floor('constants ' + pre + '*', len(grp), 3)
        for k, v in sorted(grp.items()):
            c.ob('flags are distinct bits', v is not None and v > 0 and v & (v - 1) == 0 and sum(1 for x in grp.values() if x == v) == 1, k,
                 '%s = %s is not a bit of its own' % (k, v))
    for pre in ('TSM_MOUSE_BUTTON_', 'TSM_VTE_MOUSE_'):
        grp = {k: v for k, v in H.items() if k.startswith(pre)}
        c.floor('constants ' + pre + '*', len(grp), 4)
        for k, v in sorted(grp.items()):
            c.ob('codes are distinct', v is not None and sum(1 for x in grp.values() if x == v) == 1, k, '%s = %s is not a code of its own' % (k, v))
    E = enums(alone)
    mod = E.get('tsm_vte_modifier') or {}
    c.floor('modifiers', len(mod), 5)
    for k, v in sorted(mod.items()):
        c.ob('flags are distinct bits', v > 0 and v & (v - 1) == 0 and sum(1 for x in mod.values() if x == v) == 1, k, '%s = %s is not a bit of its own' % (k, v))
    col = E.get('tsm_vte_color') or {}
    c.floor('colours', len(col), 19)
    num = col.get('TSM_COLOR_NUM')
    for k, v in sorted(col.items()):
        c.ob('colours are distinct indices', (0 <= v < num if k != 'TSM_COLOR_NUM' else v == len(col) - 1) and sum(1 for x in col.values() if x == v) == 1, k,
             '%s = %s is not an index of its own below TSM_COLOR_NUM' % (k, v))
    trk = E.get('tsm_mouse_track_mode') or {}
    for a, b in (('TSM_MOUSE_TRACK_BTN', 'TSM_VTE_MOUSE_EVENT_BTN'), ('TSM_MOUSE_TRACK_ANY', 'TSM_VTE_MOUSE_EVENT_ANY')):
        c.ob('tracking modes agree', a in trk and trk[a] == H.get(b), a, '%s = %s but %s = %s' % (a, trk.get(a), b, H.get(b)))
    m = load.module('lib')
    pal = 0
    for n, g in m.globals.items():
        if n.startswith('color_palette'):
            pal += 1
            k = g.ty[1] if g.ty and g.ty[0] == 'a' else None
            c.ob('palettes have one entry per colour', k == num, n, '%s has %s entries for %s colours' % (n, k, num))
    # the code points and the marker beyond them
    mx, inv = load.macro('TSM_UCS4_MAX'), load.macro('TSM_UCS4_INVALID')
    c.ob('invalid code is no code point', inv == mx + 1, 'TSM_UCS4_INVALID', 'TSM_UCS4_INVALID is not the first value beyond TSM_UCS4_MAX')

    c.fns |= set(public)
    c.floor('declared functions', len(public), 70)
    c.floor('exported functions', len(exported), 70)
    c.floor('versioned functions', len(listed), 70)
    c.cov['palettes'] = pal
    return c.finish()
