"""C09: every status request gets exactly its complete answer, nothing else generates one."""
from tsa import load
from . import vtespec as V
from .inputs import *

RULE = ('one character is interpreted from every parser state with arbitrary parameters, modes and cursor; the writes on every '
        'abstract path (content of the buffer, length argument, formatted numbers) are compared with the table of requests and answers')

GT = 0x8
EXEC_STATES = {'GROUND', 'ESC', 'ESC_INT', 'CSI_ENTRY', 'CSI_PARAM', 'CSI_INT', 'CSI_IGNORE'}
CSI_STATES = {'CSI_ENTRY', 'CSI_PARAM', 'CSI_INT'}
DA2 = b'\x1b[>1;1;0c'


def report(t, s, a):
    """is event a the cursor position report with the current coordinates?"""
    v = t.v
    if a[0] != 'cb' or a[1] != 'write_cb':
        return False
    x, y = v.getter('cursor_x'), v.getter('cursor_y')
    d = a[3]
    if isinstance(d, tuple) and d and d[0] == 'fmt':
        d = d[1] if d[2] else None
        if d is None:
            return False
    elif isinstance(d, tuple):
        return False
    if not d or len(d) != 5 or (d[0], d[2], d[4]) != (b'\x1b[', b';', b'R'):
        return False
    return all(p[0] in 'ud' and p[1] == '' and s.proveq(p[2], laddk(q, 1)) for p, q in ((d[1], y), (d[3], x)))


def check(Check):
    c = Check('C09', 'proof', RULE)
    mod = load.module('lib')
    paths = 0
    answered = {}

    def prep(v, t, st):
        for g in ('cursor_x', 'cursor_y'):
            st.set_dom(v.getter(g)[1][0][0], ((0, (1 << 31) - 2),))

    def judge(t, s, kind, what):
        """kind: bytes, 'report', None (no answer) or a tuple of alternatives"""
        writes = [a for a in t.acts(s) if a[0] == 'cb' and a[1] == 'write_cb']

        def is_(k):
            if k is None:
                return not writes
            if len(writes) != 1:
                return False
            if k == 'report':
                return report(t, s, writes[0])
            return writes[0][3] == tuple(k) and t.eq(s, writes[0][2][2], len(k))
        ok = any(is_(k) for k in (kind if isinstance(kind, tuple) else (kind,)))
        if kind is None:
            c.ob('no answer to anything else', ok, what, lambda: '%s is answered with [%s]' % (what, t.names(s)))
        else:
            c.ob('complete answer', ok, what, lambda: '%s is answered with [%s], documented: %r' % (
                what, '; '.join(t.name(s, a) for a in writes) or 'nothing', kind))
            answered[what.split(' in ')[0]] = answered.get(what.split(' in ')[0], 0) + 1
        # the terminal pointer and the registered data go with every write
        for a in writes:
            ok = isinstance(a[2][0], Ptr) and a[2][0].o == t.v.o.id
            c.ob('callback arguments', ok, what, '%s: the write callback is not called for this terminal' % what)

    for S, v, t, init, ends in sweep(c, mod, pins={'SEND_RECEIVE_MODE': 1}, argcs=(0, 1, 2), prep=prep):
        for s0, r in ends:
            cps = [[(0x05, 0x05)], [(0x5a, 0x5a)], [(0x63, 0x63)], [(0x6e, 0x6e)], [(0x9a, 0x9a)], None]
            for s, i in t.split(s0, Int(32, ls(v.cp)), cps, signed=False):
                paths += 1
                where = ' in state %s' % S
                if i == 0:
                    judge(t, s, b'\x06' if S in EXEC_STATES else None, 'ENQ' + where)
                elif i == 4:
                    judge(t, s, V.DA1, 'DECID (C1)' + where)
                elif i == 1 and S == 'ESC':
                    judge(t, s, V.DA1, 'ESC Z' + where)
                elif i == 2 and S in CSI_STATES:
                    fl = v.get(init.clone(), 'csi_flags')
                    n = v.get(init.clone(), 'csi_argc')
                    a0 = v.get(init.clone(), 'csi_argv', 32, 0)
                    for s1, j in t.split(s, fl, [[(0, 0)], [(GT, GT)], None], signed=False):
                        for s2, k in t.split(s1, a0, [[(-(1 << 31), 0)], None]):
                            for s3, q in t.split(s2, n, [[(0, 0)], None], signed=False):
                                if q == 1 or k == 1:
                                    judge(t, s3, None, 'device attributes with parameters' + where)
                                elif j == 0:
                                    judge(t, s3, V.DA1, 'primary device attributes' + where)
                                elif j == 1:
                                    judge(t, s3, DA2, 'secondary device attributes' + where)
                                else:
                                    for s4, g in t.bit_split(s3, fl, GT):
                                        judge(t, s4, (None, DA2) if g else None, 'device attributes with other markers' + where)
                elif i == 3 and S in CSI_STATES:
                    fl = v.get(init.clone(), 'csi_flags')
                    a0 = v.get(init.clone(), 'csi_argv', 32, 0)
                    for s1, j in t.split(s, fl, [[(0, 0)], None], signed=False):
                        for s2, k in t.split(s1, a0, [[(5, 5)], [(6, 6)], None]):
                            want = (b'\x1b[0n', 'report', None)[k]
                            if j and want:
                                want = (None, want)         # private requests may go unanswered
                            judge(t, s2, want, ('device status', 'cursor position', 'unknown status request')[k] + where)
                else:
                    judge(t, s, None, 'other input' + where)
        c.engine(v.e, ('format', 'bounds', 'uninit'), 'reports: ')
    for k, n in sorted(answered.items()):
        c.sample('%s: %d abstract paths answered as documented' % (k, n))
    c.floor('kinds of requests', len(answered), 7)
    c.floor('abstract paths', paths, 5000)
    return c.finish()
