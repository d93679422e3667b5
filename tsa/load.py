"""Compile /repo's current sources to LLVM IR and read them."""
import glob
import hashlib
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('TSM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG, LINK, OPT = '/usr/bin/clang-18', '/usr/bin/llvm-link-18', '/usr/bin/opt-18'

LIB = ['src/tsm/*.c', 'src/shared/shl-htable.c', 'external/wcwidth/wcwidth.c']
PTY = ['src/shared/shl-pty.c', 'src/shared/shl-ring.c']


def sources(pats):
    out = []
    for p in pats:
        g = sorted(glob.glob(os.path.join(REPO, p)))
        if not g:
            raise ir.IRError('anchor: no source matches %s' % p)
        out += g
    return out


def flags():
    return ['-std=gnu99', '-D_POSIX_C_SOURCE=199309L', '-D_GNU_SOURCE', '-D_FILE_OFFSET_BITS=64',
            '-D_LARGEFILE_SOURCE', '-D_LARGEFILE64_SOURCE', '-fno-strict-aliasing', '-fvisibility=hidden', '-fPIC',
            '-I' + REPO + '/src/shared', '-I' + REPO + '/src/tsm', '-I' + REPO + '/external',
            '-I' + REPO + '/external/wcwidth', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
            '-g', '-w', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types',
            '-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int', '-S', '-emit-llvm']


def config_h():
    """instantiate src/config.h.in the way the build does (debug off, xkbcommon if installed)"""
    t = open(os.path.join(REPO, 'src/config.h.in')).read()
    have = os.path.exists('/usr/include/xkbcommon/xkbcommon-keysyms.h')
    out = []
    for ln in t.split('\n'):
        m = re.match(r'#cmakedefine\s+(\w+)', ln)
        if m:
            on = m.group(1) == 'BUILD_HAVE_XKBCOMMON' and have
            ln = '#define ' + m.group(1) if on else '/* #undef %s */' % m.group(1)
        out.append(ln)
    return '\n'.join(out)


def digest():
    h = hashlib.sha256()
    fs = []
    for pat in ('src/**/*.[ch]', 'src/**/*.in', 'external/**/*.[ch]'):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:24]


def build_ll(which):
    d = os.path.join(VERIF, '.build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'ir-%s-%s.ll' % (which, digest()))
    if os.path.exists(out):
        return out
    srcs = sources({'lib': LIB, 'pty': PTY, 'all': LIB + PTY}[which])
    with tempfile.TemporaryDirectory(prefix='tsa-') as tmp:
        cfg = os.path.join(tmp, 'config.h')
        open(cfg, 'w').write(config_h())

        def one(s):
            o = os.path.join(tmp, os.path.basename(s) + '.ll')
            r = subprocess.run([CLANG] + flags() + ['-include', cfg, s, '-o', o], capture_output=True, text=True)
            if r.returncode:
                raise ir.IRError('cannot compile %s:\n%s' % (s, r.stderr[-2000:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        lk = os.path.join(tmp, 'all.ll')
        subprocess.run([LINK, '-S', '-o', lk] + objs, check=True)
        t2 = out + '.%d' % os.getpid()
        subprocess.run([OPT, '-passes=mem2reg', '-S', lk, '-o', t2], check=True)
        os.replace(t2, out)
    old = sorted(glob.glob(os.path.join(d, 'ir-%s-*.ll' % which)), key=os.path.getmtime)
    for f in old[:-6]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return out


_mods = {}


def module(which='lib'):
    if which not in _mods:
        _mods[which] = ir.Module(open(build_ll(which)).read())
    return _mods[which]


_mac = None


def macros():
    """object-like integer macros of the public and internal headers, and the key symbols"""
    global _mac
    if _mac is not None:
        return _mac
    src = '#include "libtsm.h"\n#include "libtsm-int.h"\n#include "shl-llog.h"\n#include <xkbcommon/xkbcommon-keysyms.h>\n'
    if not os.path.exists('/usr/include/xkbcommon/xkbcommon-keysyms.h'):
        src = src.replace('<xkbcommon/xkbcommon-keysyms.h>', '"xkbcommon-keysyms.h"')
    with tempfile.TemporaryDirectory(prefix='tsa-') as tmp:
        cfg = os.path.join(tmp, 'config.h')
        open(cfg, 'w').write(config_h())
        c = os.path.join(tmp, 'm.c')
        open(c, 'w').write(src)
        r = subprocess.run([CLANG] + [f for f in flags() if f not in ('-S', '-emit-llvm', '-g')] +
                           ['-I' + REPO + '/external/xkbcommon', '-include', cfg, '-dM', '-E', c],
                           capture_output=True, text=True)
        if r.returncode:
            raise ir.IRError('cannot preprocess headers: ' + r.stderr[-500:])
    raw = dict(re.findall(r'^#define (\w+) (.+)$', r.stdout, re.M))
    out = {}

    def ev(n, depth=0):
        if n in out:
            return out[n]
        t = raw.get(n)
        if t is None or depth > 20:
            return None
        t = re.sub(r'\b(0x[0-9a-fA-F]+|\d+)[uUlL]+\b', r'\1', t.strip())
        ids = set(re.findall(r'\b[A-Za-z_]\w*\b', re.sub(r'0x[0-9a-fA-F]+', '', t)))
        env = {}
        for i in ids:
            v = ev(i, depth + 1)
            if v is None:
                return None
            env[i] = v
        if not re.fullmatch(r"[\w\s()|&~+\-*<>]+", t):
            return None
        try:
            v = eval(t, {'__builtins__': {}}, env)
        except Exception:
            return None
        if isinstance(v, int):
            out[n] = v
            return v
        return None
    for n in raw:
        ev(n)
    _mac = out
    return out


def macro(n):
    m = macros()
    if n not in m:
        raise ir.IRError('anchor: macro %s not defined' % n)
    return m[n]
