"""Abstract semantics of the C library functions the code base calls."""
from . import ir
from .num import *


def install(e):
    from .engine import Int, NULL
    M = e.models
    M['malloc'] = m_malloc
    M['calloc'] = m_calloc
    M['realloc'] = m_realloc
    M['free'] = m_free
    M['llvm.memcpy'] = M['llvm.memmove'] = M['memcpy'] = M['memmove'] = m_memcpy
    M['llvm.memset'] = M['memset'] = m_memset
    M['strlen'] = m_strlen
    M['strdup'] = m_strdup
    M['strcmp'] = m_strcmp
    M['strncmp'] = m_strncmp
    M['strcasecmp'] = M['strncasecmp'] = m_opaque_int
    M['memcmp'] = m_memcmp
    M['snprintf'] = m_snprintf
    M['llog_format'] = m_nop
    M['abort'] = m_noreturn
    M['__assert_fail'] = m_noreturn
    M['llvm.va_start'] = M['llvm.va_end'] = M['llvm.va_copy'] = m_nop
    M['llvm.ctlz'] = m_ctlz


def ret(e, st, x, v):
    return [(st, v)]


def m_nop(e, st, x, a):
    return [(st, e.unk(st, x.ty, 'nop') if x.ty[0] != 'v' else None)]


def m_noreturn(e, st, x, a):
    e.report('abort', True, x, st)
    return []


def m_opaque_int(e, st, x, a):
    return [(st, e.fresh(x.ty[1], 'cmp'))]


def _sign(e, x, a, b):
    from .engine import Int
    return Int(x.ty[1], lc((a > b) - (a < b)))


def m_strcmp(e, st, x, a):
    p, q = cstring(e, st, a[0]), cstring(e, st, a[1])
    e.deref(st, a[0], x, 'strcmp')
    e.deref(st, a[1], x, 'strcmp')
    if p is not None and q is not None:
        return [(st, _sign(e, x, p, q))]
    return m_opaque_int(e, st, x, a)


def m_strncmp(e, st, x, a):
    p, q, n = cstring(e, st, a[0]), cstring(e, st, a[1]), st.const(e.norm_u(st, a[2]))
    if p is not None and q is not None and n is not None:
        return [(st, _sign(e, x, (p + b'\0')[:n], (q + b'\0')[:n]))]
    return m_opaque_int(e, st, x, a)


def m_memcmp(e, st, x, a):
    n = st.const(e.norm_u(st, a[2]))
    p, q = cstring(e, st, a[0]), cstring(e, st, a[1])
    if p is not None and q is not None and n is not None and n <= min(len(p), len(q)) + 1:
        return [(st, _sign(e, x, (p + b'\0')[:n], (q + b'\0')[:n]))]
    return m_opaque_int(e, st, x, a)


def m_ctlz(e, st, x, a):
    return [(st, e.fresh(x.ty[1], 'ctlz', 0, x.ty[1]))]


def _alloc(e, st, x, size, init):
    from .engine import Ptr
    k = st.const(size)
    o = e.newobj('heap@%s:%d' % (x.fn.name, e.m.loc(x.loc)[1]), 'heap', size if k is None else lc(k), None,
                 init if k is not None else ('opaque' if init != 'zero' else 'opaque'))
    o.loc = x
    st.ev(('alloc', o.id, x)) if e.trace_alloc else None
    if e.heap_hook:
        e.heap_hook(e, st, o, size, x)
    return Ptr(o.id)


def m_malloc(e, st, x, a, init='undef'):
    from .engine import NULL
    size = e.norm_u(st, a[0])
    out = []
    if e.alloc_fail:
        f = st.clone()
        if e.trace_alloc:
            f.ev(('allocfail', x))
        f.gh['oom'] = True
        out.append((f, NULL))
    out.append((st, _alloc(e, st, x, size, init)))
    return out


def m_calloc(e, st, x, a):
    from .engine import NULL, Int
    p = e.binop(st, 'mul', 64, a[0], a[1])
    return m_malloc(e, st, x, [p], 'zero')


def do_free(e, st, x, v):
    from .engine import NULL, PSym, UNDEF, Ptr
    v = e.resolve(st, v)
    if v is NULL:
        return
    if isinstance(v, PSym):
        e.set_nonnull(st, v.p)   # free(NULL) is a no-op; consider the allocated case
        v = e.resolve(st, v)
    if v is UNDEF or not isinstance(v, Ptr):
        e.report('free', False, x, st, 'free of an indeterminate pointer')
        return
    o = st.canon(v.o)
    ob = e.objs[o]
    bad = ''
    if o in st.freed:
        bad = 'double free of ' + ob.name
    elif ob.kind in ('alloca', 'global'):
        bad = 'free of non-heap object ' + ob.name
    elif not (v.l == (0, ()) or st.proveq(v.l, lc(0))):
        bad = 'free of a pointer into the middle of ' + ob.name
    e.report('free', not bad, x, st, bad)
    st.freed = st.freed | {o}
    if e.trace_alloc:
        st.ev(('free', o, x))
    if e.on_free:
        e.on_free(e, st, x, ob)


def m_free(e, st, x, a):
    from .engine import PSym
    v = e.resolve(st, a[0])
    if isinstance(v, PSym) and e.psyms[v.p].nullable:
        n = st.clone()
        e.set_null(n, v.p)
        do_free(e, st, x, v)
        return [(n, None), (st, None)]
    do_free(e, st, x, v)
    return [(st, None)]


def m_realloc(e, st, x, a):
    from .engine import NULL, PSym, Ptr, OS
    size = e.norm_u(st, a[1])
    v = e.resolve(st, a[0])
    out = []
    if isinstance(v, PSym) and e.psyms[v.p].nullable:
        n = st.clone()
        e.set_null(n, v.p)
        out += m_realloc(e, n, x, [NULL, a[1]])
        e.set_nonnull(st, v.p)
        v = e.resolve(st, v)
    if e.alloc_fail:
        f = st.clone()
        f.gh['oom'] = True
        if e.trace_alloc:
            f.ev(('allocfail', x))
        out.append((f, NULL))
    if v is NULL:
        out.append((st, _alloc(e, st, x, size, 'undef')))
        return out
    v = e.deref(st, v, x, 'realloc')
    old = e.objs[v.o]
    do_free(e, st, x, v)
    p = _alloc(e, st, x, size, 'undef')
    o = e.objs[p.o]
    if old.hook is not None:
        old.hook.realloc(e, st, old, o, size)
    elif o.init != 'opaque':
        so = st.mem.get(old.id)
        k = o.size[0]
        n = st.const(old.size) if old.size is not None else None
        if n is not None and st.const(size) is not None and n <= 1 << 16 and old.init == 'lazy':
            for rel, sz, ty in cells_of(e, st, old, 0, min(n, k)):
                e.load_const(st, old, rel, ty, sz, None)
            so = st.mem.get(old.id)
        if so is not None:
            w = st.wobs(o.id)
            for (off, n), val in so.c.items():
                if off + n <= k:
                    w.c[(off, n)] = val
    out.append((st, p))
    return out


def cells_of(e, st, o, off, n):
    """[(rel off, size, ty)] partition of [off, off+n) used for copying"""
    out = []
    os = st.mem.get(o.id)
    i = off
    while i < off + n:
        hit = None
        if os is not None:
            for k in os.c.overlap(i, i + 1):
                if k[0] == i and k[0] + k[1] <= off + n:
                    if hit is None or k[1] > hit[1]:
                        hit = k
        if hit is not None:
            v = os.c[hit]
            from .engine import Int, Cond
            ty = ('i', hit[1] * 8) if isinstance(v, (Int, Cond)) else ('p',) if hit[1] == 8 else ('i', hit[1] * 8)
            out.append((i - off, hit[1], ty))
            i += hit[1]
            continue
        if o.ty is not None and i < e.m.sizeof(o.ty):
            lf = e.leaf(o.ty, i)
            if lf is not None and lf[0] == i:
                s = e.m.sizeof(lf[1])
                if i + s <= off + n and not (os and os.c.overlap(i, i + s)):
                    out.append((i - off, s, lf[1]))
                    i += s
                    continue
            if lf is None:
                i += 1
                continue
        out.append((i - off, 1, ('i', 8)))
        i += 1
    return out


def m_memcpy(e, st, x, a):
    from .engine import Int, UNDEF
    n = e.norm_u(st, a[2])
    k = st.const(n)
    if k == 0:
        return [(st, a[0] if x.ty[0] == 'p' else None)]
    if k is None and st.ib(n)[0] == 0 and not st.prove(laddk(n, -1)):
        # zero-length copies access nothing
        from .engine import Split
        raise Split([e._assumer(lscale(n, -1)), e._assumer(laddk(n, -1))])
    e.concretise(st, n)
    s = e.deref(st, a[1], x, 'copy from')
    d = e.deref(st, a[0], x, 'copy to')
    if e.split_len:
        e.concretise(st, s.l)
        e.concretise(st, d.l)
    ok = e.check_bounds(st, s, 0, x, 'copy source', n)
    ok2 = e.check_bounds(st, d, 0, x, 'copy destination', n)
    so, do = e.objs[s.o], e.objs[d.o]
    if e.on_copy:
        e.on_copy(e, st, x, d, s, n)
    r = NotImplemented
    if do.hook is not None:
        r = do.hook.copy_in(e, st, do, d, so, s, n, x)
    if r is NotImplemented and do.init != 'opaque':
        doff, soff = st.const(d.l), st.const(s.l)
        if k is not None and doff is not None and soff is not None and so.hook is None and k <= 65536:
            vals = []
            for rel, sz, ty in cells_of(e, st, so, soff, k):
                v = e.load_const(st, so, soff + rel, ty, sz, None)
                vals.append((rel, sz, v))
            e.fill(st, do, doff, doff + k, 'undef')
            for rel, sz, v in vals:
                if e.on_store:
                    from .engine import Ptr
                    e.on_store(st, do, Ptr(do.id, lc(doff + rel)), v, sz, x)
                if v is not UNDEF:
                    e.store_const(st, do, doff + rel, v, sz)
        else:
            lo, hi = st.ib(d.l)
            nh = st.ib(n)[1]
            top = hi + nh
            if do.size is not None and not do.size[1]:
                top = min(top, do.size[0])
            e.havoc_range(st, do, max(0, lo), top)
    return [(st, a[0] if x.ty[0] == 'p' else None)]


def m_memset(e, st, x, a):
    n = e.norm_u(st, a[2])
    k = st.const(n)
    if k == 0:
        return [(st, a[0] if x.ty[0] == 'p' else None)]
    d = e.deref(st, a[0], x, 'memset')
    e.check_bounds(st, d, 0, x, 'memset', n)
    o = e.objs[d.o]
    c = st.const(a[1].l)
    off = st.const(d.l)
    if e.on_copy:
        e.on_copy(e, st, x, d, None, n)
    if o.hook is None and o.init != 'opaque':
        if k is not None and off is not None and c is not None:
            if e.on_store and o.ty is not None and off + k <= e.m.sizeof(o.ty):
                from .engine import Ptr, Int
                for lo, lt in e.leaves(o.ty, off, off + k):
                    sz = e.m.sizeof(lt)
                    e.on_store(st, o, Ptr(o.id, lc(lo)), Int(sz * 8, lc(int.from_bytes(bytes([c & 255]) * sz, 'little'))), sz, x)
            e.fill(st, o, off, off + k, c & 0xff)
        else:
            lo, hi = st.ib(d.l)
            e.havoc_range(st, o, max(lo, 0), hi + st.ib(n)[1])
    return [(st, a[0] if x.ty[0] == 'p' else None)]


def fmt_marker(e, st, p):
    """('fmt', pieces, lensym) when a formatted string starts exactly at p"""
    from .engine import Ptr
    p = e.resolve(st, p)
    if not isinstance(p, Ptr):
        return None
    off = st.const(p.l)
    os = st.mem.get(st.canon(p.o))
    if off is None or os is None:
        return None
    for lo, hi, v in reversed(os.fill):
        if isinstance(v, tuple) and v[0] == 'fmt' and lo == off:
            if any(lo <= k[0] < hi for k, c in os.c.items() if not (len(v) > 3 and k in v[3])):
                return None
            return v
        if lo <= off < hi:
            return None
    return None


def cstring(e, st, p):
    """bytes of a constant C string at p, or None"""
    from .engine import Ptr, Int
    p = e.resolve(st, p)
    if not isinstance(p, Ptr):
        return None
    off = st.const(p.l)
    if off is None:
        return None
    o = e.objs[p.o]
    out = bytearray()
    while True:
        if o.size is not None and not o.size[1] and off >= o.size[0]:
            return None
        v = e.load_const(st, o, off, ('i', 8), 1, None) if o.init != 'opaque' else None
        if not isinstance(v, Int):
            return None
        c = st.const(v.l)
        if c is None:
            return None
        if c & 255 == 0:
            return bytes(out)
        out.append(c & 255)
        off += 1
        if len(out) > 4096:
            return None


def m_strlen(e, st, x, a):
    from .engine import Int
    f = fmt_marker(e, st, a[0])
    if f is not None:
        return [(st, Int(64, f[2]))]
    s = cstring(e, st, a[0])
    if s is not None:
        return [(st, Int(64, lc(len(s))))]
    e.deref(st, a[0], x, 'strlen')
    return [(st, e.fresh(64, 'strlen', 0, (1 << 40)))]


def m_strdup(e, st, x, a):
    from .engine import Int, NULL
    s = cstring(e, st, a[0])
    e.deref(st, a[0], x, 'strdup')
    n = lc(len(s) + 1) if s is not None else laddk(e.fresh(64, 'strdup', 0, 1 << 40).l, 1)
    out = []
    if e.alloc_fail:
        f = st.clone()
        f.gh['oom'] = True
        out.append((f, NULL))
    p = _alloc(e, st, x, n, 'undef')
    if s is not None:
        o = e.objs[p.o]
        for i, c in enumerate(s + b'\0'):
            e.store_const(st, o, i, Int(8, lc(c)), 1)
    out.append((st, p))
    return out


def parse_fmt(b):
    """printf format -> [bytes | (flags, width, length, conv)]"""
    import re
    out = []
    i = 0
    s = b.decode('latin1')
    for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsp%])', s):
        if m.start() > i:
            out.append(s[i:m.start()].encode('latin1'))
        if m.group(5) == '%':
            out.append(b'%')
        else:
            out.append((m.group(1), m.group(2), m.group(4) or '', m.group(5)))
        i = m.end()
    if i < len(s):
        out.append(s[i:].encode('latin1'))
    # merge literals
    r = []
    for p in out:
        if isinstance(p, bytes) and r and isinstance(r[-1], bytes):
            r[-1] += p
        else:
            r.append(p)
    return r


def ndigits(v):
    return len(str(abs(v))) + (1 if v < 0 else 0)


def m_snprintf(e, st, x, a):
    """models snprintf with a constant format of integer conversions"""
    from .engine import Int, NULL, Ptr
    fmt = cstring(e, st, a[2])
    size = e.norm_u(st, a[1])
    d = None
    if st.const(size) != 0:
        d = e.deref(st, a[0], x, 'snprintf')
        e.check_bounds(st, d, 0, x, 'snprintf buffer', size)
    ok = fmt is not None
    pieces = []
    mn = mx = 0
    if ok:
        args = list(a[3:])
        for p in parse_fmt(fmt):
            if isinstance(p, bytes):
                pieces.append(p)
                mn += len(p)
                mx += len(p)
                continue
            if not args:
                ok = False
                break
            v = args.pop(0)
            conv = p[3]
            if conv in 'diuxX' and isinstance(v, Int):
                w = {'hh': 8, 'h': 16}.get(p[2], v.w)
                if w < v.w:
                    v = e.cast(st, 'trunc', ('i', v.w), v, ('i', w))
                l = e.norm_s(st, v, w) if conv in 'di' else e.norm_u(st, v, w)
                lo, hi = st.ib(l)
                if st.cons:
                    lo, hi = max(lo, st.lmin(l)), min(hi, st.lmax(l))
                if conv in 'xX':
                    a1, b1 = len('%x' % max(lo, 0)), len('%x' % hi)
                else:
                    a1 = 1 if lo <= 0 <= hi else min(ndigits(lo), ndigits(hi))
                    b1 = max(ndigits(lo), ndigits(hi))
                wd = int(p[1] or 0)
                mn += max(a1, wd)
                mx += max(b1, wd)
                k = st.const(l)
                if k is not None and conv in 'diu' and not wd:
                    pieces.append(str(k).encode())
                else:
                    pieces.append((conv, p[0] + p[1], l, v.w))
            elif conv == 'c' and isinstance(v, Int):
                pieces.append(('c', '', v.l, 8))
                mn += 1
                mx += 1
            else:
                pieces.append((conv, p[0] + p[1], None, 0))
                mx += 1 << 20
                ok = False if conv != 's' else ok
    else:
        mx = 1 << 20
    r = []
    for p in pieces:
        if isinstance(p, bytes) and r and isinstance(r[-1], bytes):
            r[-1] += p
        else:
            r.append(p)
    pieces = tuple(r)
    if mn == mx:
        l = lc(mn)
    else:
        l = ls(e.S.fresh(32, 'snprintf', mn, mx))
    trunc_ok = st.prove(lsub(laddk(size, -1), lc(mx)))
    e.report('format', trunc_ok, x, st, lambda: 'formatted text of up to %d bytes does not fit the buffer' % mx)
    if d is not None:
        o = e.objs[d.o]
        off = st.const(d.l)
        if o.init != 'opaque' and off is not None:
            top = off + min(mx + 1, st.ib(size)[1])
            e.fill(st, o, off, top, ('fmt', pieces, l) if ok and trunc_ok else 'havoc')
            if len(pieces) == 1 and isinstance(pieces[0], bytes) and ok and trunc_ok:
                for i, c in enumerate(pieces[0] + b'\0'):
                    e.store_const(st, o, off + i, Int(8, lc(c)), 1)
    return [(st, Int(32, l))]
