"""Specification tables for the terminal parser (independent of the implementation's structure)."""
ESC = 0x1b


def rng(a, b=None):
    return (a, a if b is None else b)


C0 = [rng(0, 0x17), rng(0x19), rng(0x1c, 0x1f)]
ANY = [
    ([rng(0x18), rng(0x1a), rng(0x80, 0x8f), rng(0x91, 0x97), rng(0x99, 0x9a), rng(0x9c)], 'GROUND', 'execute'),
    ([rng(0x1b)], 'ESC', 'clear'),
    ([rng(0x98), rng(0x9e, 0x9f)], 'ST_IGNORE', 'none'),
    ([rng(0x90)], 'DCS_ENTRY', 'clear'),
    ([rng(0x9d)], 'OSC_STRING', 'clear'),
    ([rng(0x9b)], 'CSI_ENTRY', 'clear'),
]
HIGH = [rng(0xa0, 0x10ffff)]
# state -> [(ranges, successor or None (stay), action)]; 'free' = anything that has no visible effect
TABLE = {
    'GROUND': [(C0, None, 'execute'), ([rng(0x20, 0x7f)] + HIGH, None, 'print')],
    'ESC': [(C0, None, 'execute'), ([rng(0x7f)], None, 'ignore'), ([rng(0x20, 0x2f)], 'ESC_INT', 'collect'),
            ([rng(0x30, 0x4f), rng(0x51, 0x57), rng(0x59, 0x5a), rng(0x5c), rng(0x60, 0x7e)], 'GROUND', 'esc'),
            ([rng(0x5b)], 'CSI_ENTRY', 'clear'), ([rng(0x5d)], 'OSC_STRING', 'clear'),
            ([rng(0x50)], 'DCS_ENTRY', 'clear'), ([rng(0x58), rng(0x5e, 0x5f)], 'ST_IGNORE', 'none'),
            (HIGH, 'any', 'free')],
    'ESC_INT': [(C0, None, 'execute'), ([rng(0x20, 0x2f)], None, 'collect'), ([rng(0x7f)], None, 'ignore'),
                ([rng(0x30, 0x7e)], 'GROUND', 'esc'), (HIGH, 'any', 'free')],
    'CSI_ENTRY': [(C0, None, 'execute'), ([rng(0x7f)], None, 'ignore'), ([rng(0x20, 0x2f)], 'CSI_INT', 'collect'),
                  ([rng(0x3a)], 'CSI_IGNORE', 'none'), ([rng(0x30, 0x39), rng(0x3b)], 'CSI_PARAM', 'param'),
                  ([rng(0x3c, 0x3f)], 'CSI_PARAM', 'collect'), ([rng(0x40, 0x7e)], 'GROUND', 'csi'), (HIGH, 'any', 'free')],
    'CSI_PARAM': [(C0, None, 'execute'), ([rng(0x30, 0x39), rng(0x3b)], None, 'param'), ([rng(0x7f)], None, 'ignore'),
                  ([rng(0x3a), rng(0x3c, 0x3f)], 'CSI_IGNORE', 'none'), ([rng(0x20, 0x2f)], 'CSI_INT', 'collect'),
                  ([rng(0x40, 0x7e)], 'GROUND', 'csi'), (HIGH, 'any', 'free')],
    'CSI_INT': [(C0, None, 'execute'), ([rng(0x20, 0x2f)], None, 'collect'), ([rng(0x7f)], None, 'ignore'),
                ([rng(0x30, 0x3f)], 'CSI_IGNORE', 'none'), ([rng(0x40, 0x7e)], 'GROUND', 'csi'), (HIGH, 'any', 'free')],
    'CSI_IGNORE': [(C0, None, 'execute'), ([rng(0x20, 0x3f), rng(0x7f)], None, 'ignore'), ([rng(0x40, 0x7e)], 'GROUND', 'none'),
                   (HIGH, 'any', 'free')],
    'DCS_ENTRY': [(C0 + [rng(0x7f)], None, 'ignore'), ([rng(0x3a)], 'DCS_IGNORE', 'none'), ([rng(0x20, 0x2f)], 'DCS_INT', 'collect'),
                  ([rng(0x30, 0x39), rng(0x3b)], 'DCS_PARAM', 'param'), ([rng(0x3c, 0x3f)], 'DCS_PARAM', 'collect'),
                  ([rng(0x40, 0x7e)], 'DCS_PASS', 'none'), (HIGH, 'any', 'free')],
    'DCS_PARAM': [(C0 + [rng(0x7f)], None, 'ignore'), ([rng(0x30, 0x39), rng(0x3b)], None, 'param'),
                  ([rng(0x3a), rng(0x3c, 0x3f)], 'DCS_IGNORE', 'none'), ([rng(0x20, 0x2f)], 'DCS_INT', 'collect'),
                  ([rng(0x40, 0x7e)], 'DCS_PASS', 'none'), (HIGH, 'any', 'free')],
    'DCS_INT': [(C0 + [rng(0x7f)], None, 'ignore'), ([rng(0x20, 0x2f)], None, 'collect'), ([rng(0x30, 0x3f)], 'DCS_IGNORE', 'none'),
                ([rng(0x40, 0x7e)], 'DCS_PASS', 'none'), (HIGH, 'any', 'free')],
    'DCS_PASS': [(C0 + [rng(0x20, 0x7f)] + HIGH, None, 'none')],
    'DCS_IGNORE': [(C0 + [rng(0x20, 0x7f)] + HIGH, None, 'ignore')],
    'OSC_STRING': [([rng(0, 6), rng(8, 0x17), rng(0x19), rng(0x1c, 0x1f)], None, 'ignore'), ([rng(7)], 'GROUND', 'none'),
                   ([rng(0x20, 0x7f)] + HIGH, None, 'osc')],
    'ST_IGNORE': [(C0 + [rng(0x20, 0x7f)] + HIGH, None, 'ignore')],
}
COLLECT = {0x21: 0x1, 0x24: 0x2, 0x3f: 0x4, 0x3e: 0x8, 0x20: 0x10, 0x27: 0x20, 0x22: 0x40, 0x2a: 0x80, 0x2b: 0x100,
           0x28: 0x200, 0x29: 0x400}
DA1 = b'\x1b[?60;1;6;9;15c'
