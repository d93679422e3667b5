"""The screen shapes the screen checks partition over."""
import itertools

KINDS = ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free', 'vla')
VERTICAL = ('move_up', 'move_down', 'newline')
HORIZONTAL = ('move_left', 'move_right', 'move_line_end', 'move_line_home')
LINES = ('scroll_up', 'scroll_down', 'insert_lines', 'delete_lines')
ERASE = ('erase_cursor', 'erase_chars', 'erase_cursor_to_end', 'erase_home_to_cursor', 'erase_current_line', 'erase_screen_to_cursor',
         'erase_cursor_to_screen', 'erase_screen')
CHARS = ('insert_chars', 'delete_chars')
TALL = ((0, 1), (127, 132), (255, 258), (4294967295, 4294967295))


def margins(H):
    return [(a, b) for a in range(H) for b in range(a, H)]


def cursors(W, H):
    return [(x, y) for y in range(H) for x in range(W + 1)]


def S(W, H, **k):
    k.update(W=W, H=H)
    return k


def vary(out):
    """some of the screens have once been wider or higher"""
    n, res = 0, []
    for op, s in out:
        if 'extra' not in s and 'more' not in s and s['W'] < 10 and s['H'] < 10:
            n += 1
            k = (n * 7 + n // 4) % 4
            s = dict(s, **({'extra': 1} if k & 1 else {}), **({'more': 1 + n % 2} if k & 2 else {}))
        res.append((op, s))
    return res


def motion(thorough=False):
    """[(operation, shape)] for cursor motion"""
    out = []
    for W, H in ((1, 1), (3, 4)) + (((4, 5),) if thorough else ()):
        for (cx, cy), (mt, mb) in itertools.product(cursors(W, H), margins(H)):
            alt = (cx + cy + mt + mb) & 1
            s = S(W, H, cx=cx, cy=cy, mt=mt, mb=mb, alt=alt, sbmax=(cy + mb) % 4, sb=0)
            if cx in (0, 1, W):
                out += [(op, s) for op in VERTICAL]
            out.append(('move_to', s))
            if (mt, mb) in ((0, H - 1), (1, 2)):
                out += [(op, s) for op in HORIZONTAL]
    for W in (1, 2, 5) + ((8,) if thorough else ()):
        for cx in range(W + 1):
            out += [(op, S(W, 2, cx=cx, cy=1)) for op in ('tab_left', 'tab_right')]
    # long rows with tab stops every 8 columns
    for cx in (0, 1, 7, 8, 9, 15, 16, 18, 19, 20):
        out += [(op, S(20, 1, cx=cx, tabs=[i % 8 == 0 for i in range(20)])) for op in ('tab_left', 'tab_right')]
    for cx in (0, 50, 130):
        out += [(op, S(131, 1, cx=cx, ndom=TALL)) for op in HORIZONTAL]
    return vary(out)


def lines(thorough=False):
    out = []
    for W, H in ((1, 1), (2, 4)) + (((3, 6),) if thorough else ()):
        for (mt, mb), alt, cy in itertools.product(margins(H), (0, 1), range(H)):
            for op in LINES + VERTICAL + ('write',):
                if op.startswith('scroll') and cy:
                    continue
                s = S(W, H, cx=W if op == 'write' else (cy & 1) * (W - 1), cy=cy, mt=mt, mb=mb, alt=alt)
                if (mt + mb + cy) % 3 == 0:
                    s['extra'] = 1
                if (mt + mb + cy) % 3 == 1:
                    s['more'] = 2
                if not alt:
                    s['sbmax'] = (mt + cy) % 4
                    s['sb'] = min(s['sbmax'], (mb + cy) % 3)
                out.append((op, s))
    for mb in (128, 129, 130):
        for alt in (0, 1):
            for op in LINES:
                out.append((op, S(1, 131, cx=0, cy=0, mb=mb, alt=alt, ndom=TALL, sbmax=0)))
    out.append(('scroll_up', S(1, 131, ndom=TALL, sbmax=2, sb=1)))
    out.append(('scroll_up', S(1, 300, mt=1, mb=298, alt=1, ndom=TALL)))
    out.append(('scroll_down', S(1, 300, mt=1, mb=298, ndom=TALL)))
    return out


def erases(thorough=False):
    out = []
    for W, H in ((1, 1), (3, 3)) + (((4, 5),) if thorough else ()):
        for cx, cy in cursors(W, H):
            for op in ERASE:
                for k in range(3):
                    und = tuple(sorted({(cy, min(cx, W - 1)), ((cy + k) % H, (cx + 1 + k) % W), ((cy + 2 * k + 1) % H, (cx + 2 + k) % W)}))
                    mt = min(k, H - 1)
                    out.append((op, S(W, H, cx=cx, cy=cy, alt=(cx + cy + k) & 1, protect=und, mt=mt, mb=max(mt, H - 1 - (k > 1)),
                                      extra=k % 2, more=k // 2)))
                    if op in ('erase_cursor', 'erase_chars'):
                        break
    return out


def chars(thorough=False):
    out = []
    for W, H in ((1, 1), (4, 2)) + (((6, 2),) if thorough else ()):
        for cx, cy in cursors(W, H):
            for alt in (0, 1):
                out += [(op, S(W, H, cx=cx, cy=cy, alt=alt, extra=alt)) for op in CHARS]
    return vary(out)


def writes(thorough=False):
    out = []
    for W, H in ((1, 1), (1, 3), (4, 3)) + (((6, 4),) if thorough else ()):
        for (cx, cy), (mt, mb), alt in itertools.product(cursors(W, H), margins(H), (0, 1)):
            if cx not in (0, 1, W - 2, W - 1, W) or (mt, mb) not in ((0, H - 1), (0, max(0, H - 2)), (1, H - 1), (1, 1)):
                continue
            s = S(W, H, cx=cx, cy=cy, mt=mt, mb=mb, alt=alt)
            if not alt:
                s.update(sbmax=(cx + cy) % 3, sb=0)
            out.append(('write', s))
    return vary(out)


SBOPS = ('scroll_up', 'newline', 'write', 'move_down', 'set_max_sb', 'clear_sb', 'sb_up', 'sb_down', 'sb_page_up', 'sb_page_down',
         'sb_reset')
ALL = None
BITS = ('INSERT_MODE', 'AUTO_WRAP', 'REL_ORIGIN', 'INVERSE', 'HIDE_CURSOR', 'FIXED_POS')


def history(thorough=False):
    out = []
    for n in (0, 1, 2, 3):
        for mx in (0, 1, 2, 3, 4, None):
            if mx is not None and mx < n:
                continue
            for pos in (None,) + tuple(range(n)):
                for alt in (0, 1):
                    for op in SBOPS:
                        s = S(1, 2, cx=1, cy=1, alt=alt, sb=n, sbpos=pos)
                        if mx is not None:
                            s['sbmax'] = mx
                        out.append((op, s))
    for mx in (0, 1, 3):
        for op in ('scroll_up', 'move_down'):
            out.append((op, S(1, 131, ndom=TALL, sbmax=mx, sb=min(mx, 1))))
    return vary(out)


def selections(n):
    a = [('y', 0), ('y', 1), ('y', 5), 'top'] + [('sb', i) for i in range(n)] + ([('sb', n - 1, 'top')] if n else [])
    return [(x, y) for x in a for y in a]


def selecting(thorough=False):
    """selections of every pair of rows, on screens that scroll in every way"""
    out = []
    i = 0
    for W, H in ((1, 1), (2, 4)) + (((2, 6),) if thorough else ()):
        for (mt, mb), alt, cy in itertools.product(margins(H), (0, 1), range(H)):
            for op in LINES + VERTICAL + ('write',):
                if op.startswith('scroll') and cy:
                    continue
                i += 1
                ends = [('y', k, (k + i) % W) for k in range(H)] + ['top']
                s = S(W, H, cx=W if op == 'write' else 0, cy=cy, mt=mt, mb=mb, alt=alt)
                n = i % 3
                s.update(sb=n, sbmax=n + (i // 3) % 4)
                if i % 5 == 0:
                    s.pop('sbmax')
                ends += [('sb', k) for k in range(n)] + ([('sb', 0, 'top')] if n else [])
                for a in ends[:H]:
                    b = ends[(i * 7 + a[1]) % len(ends)]
                    out.append((op, dict(s, sel=(a, b) if i & 1 else (b, a))))
    for W, H in ((1, 1), (3, 4)):
        for n in range(4):
            for pos in (None,) + tuple(range(n)):
                for alt in (0, 1):
                    for op in ('selection_start', 'selection_target', 'selection_reset'):
                        s = S(W, H, sb=n, sbpos=pos, alt=alt)
                        out.append((op, s))
                        out.append((op, dict(s, sel=(('y', 0, 0), ('y', H - 1, 0)))))
    for a in ((0, 0), (127, 0), (128, 129), (130, 5)):
        for op in LINES:
            out.append((op, S(1, 131, ndom=TALL, sbmax=1, sb=1, sel=(('y', a[0]), ('y', a[1])))))
    return vary(out)


def flagops():
    """setting and resetting modes, with all combinations of those that change what is shown"""
    out = []
    from tsa import load
    m = lambda n: load.macro('TSM_SCREEN_' + n)
    for a, h, i, o in itertools.product((0, 1), repeat=4):
        fl = dict(INVERSE=i, HIDE_CURSOR=h, INSERT_MODE=o, AUTO_WRAP=o, REL_ORIGIN=1 - o, FIXED_POS=o)
        for a2, h2, i2, o2 in itertools.product((0, 1), repeat=4):
            mask = a2 * m('ALTERNATE') | h2 * m('HIDE_CURSOR') | i2 * m('INVERSE')
            mask |= o2 * (m('INSERT_MODE') | m('AUTO_WRAP') | m('REL_ORIGIN') | m('FIXED_POS'))
            k = a + 2 * h + 4 * a2 + 8 * i2 + h2
            s = S(2, 2, cx=k % 3, cy=k // 3 % 2, alt=a, flags=fl, mask=mask, sb=k % 3)
            if k % 3 == 2:
                s['sbpos'] = 1
            out += [('set_flags', s), ('reset_flags', s)]
    return vary(out)


def resizes(thorough=False):
    out = []
    sizes = ((1, 1), (2, 3), (3, 2)) + (((4, 4),) if thorough else ())
    for (W, H), (w, h) in itertools.product(sizes, ((1, 1), (1, 3), (2, 2), (3, 1), (4, 4), (3, 2), (2, 3))):
        for cx, cy in {(0, 0), (W, H - 1), (W - 1, 0), (0, H - 1)}:
            for alt in (0, 1):
                k = cx + cy + alt + w
                s = S(W, H, cx=cx, cy=cy, alt=alt, w=w, h=h, extra=k % 2, more=k // 2 % 2, sb=k % 3, mt=(H - 1) // 2)
                s['sbmax'] = s['sb'] + (k + h) % 3
                if s['sb'] and k % 2:
                    s['sbpos'] = s['sb'] - 1
                if (k + h) % 2:
                    s['mb'] = s['mt']
                out.append(('resize', s))
    return out


def sizes(thorough=False):
    """resizing: pairs of sizes, cursor positions, scroll regions, history rows, hidden rows and columns"""
    out = []
    n = 0
    top = 6 if thorough else 4
    rng = range(1, top)
    for W, H, w, h in itertools.product(rng, repeat=4):
        for cx, cy in [(x, y) for x in sorted({0, W - 1, W}) for y in sorted({0, H // 2, H - 1})]:
            n += 1
            if top == 6 and n % 3 and (W > 3 or H > 3 or w > 3 or h > 3):
                continue
            ms = margins(H)
            for alt in (0, 1):
                m = ms[(n * 3 + alt * 2) % len(ms)]
                s = S(W, H, cx=cx, cy=cy, alt=alt, w=w, h=h, mt=m[0], mb=m[1], sb=n % 3, extra=n // 2 % 2, more=n // 4 % 3)
                if n % 4:
                    s['sbmax'] = s['sb'] + n % 4 - 1
                if s['sb'] and n // 3 % 2:
                    s['sbpos'] = s['sb'] - 1
                out.append(('resize', s))
    for W, w in ((1, 17), (9, 17), (17, 9), (16, 17), (16, 8)):
        for h in (1, 2):
            out.append(('resize', S(W, 1, cx=W - 1, w=w, h=h)))
    return out


WIDE = ((0, 1), (127, 128), (255, 257), (298, 300), (4294967295, 4294967295))


def wide(*families):
    """rows, columns and counts beyond one byte: nothing may depend on a narrower integer than the interface has"""
    out = []
    f = set(families)
    if 'motion' in f:
        out += [(op, S(300, 1, cx=cx, ndom=WIDE)) for op in HORIZONTAL for cx in (3, 270)]
        out += [(op, S(300, 1, cx=cx, ndom=WIDE, tabs=[i in (0, 8, 120, 130, 256, 272, 290) for i in range(300)]))
                for op, cx in (('tab_left', 270), ('tab_right', 125), ('tab_right', 270))]
        for cy, mt, mb in ((10, 0, 299), (256, 2, 290), (10, 258, 299), (298, 0, 256)):
            s = S(1, 300, cy=cy, mt=mt, mb=mb, ndom=WIDE, alt=1)
            out += [(op, s) for op in ('move_up', 'move_down', 'newline')]
        out += [('move_to', S(1, 300, cy=10, mb=256, mt=2, ndom=WIDE)), ('move_to', S(300, 1, ndom=((127, 128), (255, 257))))]
        out += [('newline', S(1, 300, cy=mb, mb=mb, alt=alt, sbmax=2)) for mb in (255, 256, 299) for alt in (0, 1)]
    if 'lines' in f:
        for cy, mt, mb in ((3, 0, 299), (257, 1, 290), (130, 128, 257)):
            out += [(op, S(1, 300, cy=cy, mt=mt, mb=mb, alt=cy & 1, sbmax=1, ndom=WIDE)) for op in ('insert_lines', 'delete_lines')]
    if 'erases' in f:
        for i, op in enumerate(ERASE):
            for cx in (3, 270):
                out.append((op, S(300, 1, cx=cx, protect=((0, 265), (0, 290)), ndom=WIDE, alt=cx & 1)))
            out.append((op, S(1, 300, cy=(258, 5)[i & 1], protect=((256, 0), (2, 0)), ndom=WIDE, alt=1)))
    if 'chars' in f:
        out += [(op, S(300, 1, cx=cx, ndom=WIDE, alt=cx & 1)) for op in CHARS for cx in (3, 260)]
    if 'writes' in f:
        out += [('write', S(300, 1, cx=cx, alt=cx & 1)) for cx in (255, 256, 300)]
        out += [('write', S(2, 300, cx=2, cy=cy, alt=cy & 1, mb=299, sbmax=1)) for cy in (3, 255, 256, 299)]
    if 'sizes' in f:
        for cx, cy, W, w in ((3, 0, 300, 270), (299, 0, 300, 260), (260, 0, 270, 300), (3, 0, 5, 300), (290, 0, 300, 20)):
            out.append(('resize', S(W, 1, cx=cx, cy=cy, w=w, h=1)))
        for cy, H, h in ((3, 300, 270), (299, 300, 270), (260, 270, 300), (1, 2, 300), (290, 300, 20)):
            out.append(('resize', S(1, H, cy=cy, w=1, h=h, sbmax=290, mb=H - 2, mt=min(257, H - 2))))
    return out


def everything(thorough=False, sel=False):
    from .ops import OPS
    out = []
    shapes = []
    for cx, cy, mt, mb, alt, sb, pos in ((0, 0, 0, 2, 0, 0, None), (2, 2, 0, 2, 0, 2, 1), (1, 1, 1, 1, 1, 2, 0), (2, 0, 1, 2, 0, 1, 0),
                                         (1, 2, 0, 1, 0, 2, None), (0, 2, 1, 2, 1, 0, None), (2, 1, 0, 2, 1, 1, None),
                                         (1, 0, 0, 0, 0, 1, 0)):
        for k in range(3):
            s = S(2, 3, cx=cx, cy=cy, mt=mt, mb=mb, alt=alt, sb=sb, sbpos=pos, extra=k % 2, more=k // 2)
            if k == 1:
                s['sbmax'] = sb
            shapes.append(s)
    shapes.append(S(1, 1))
    shapes.append(S(1, 1, cx=1, alt=1, sb=1, sbmax=1, sbpos=0))
    for op in OPS:
        if op in ('set_flags', 'reset_flags', 'resize'):
            continue
        if sel:
            for i, s in enumerate(shapes):
                ss = selections(s.get('sb', 0))
                for j in range(2):
                    out.append((op, dict(s, sel=ss[(i * 7 + j * 5) % len(ss)])))
        out += [(op, s) for s in shapes]
    out += flagops()
    out += resizes(thorough)
    if sel:
        for op in SBOPS:
            for n in (1, 2):
                for mx in (n, n + 1):
                    for x in selections(n):
                        out.append((op, S(1, 2, cx=1, cy=1, sb=n, sbmax=mx, sbpos=0, sel=x)))
        out += [(o, dict(s, sel=selections(s.get('sb', 0))[i % len(selections(s.get('sb', 0)))])) for i, (o, s) in
                enumerate(resizes(thorough)) if i % 2]
    return out
