"""Documented key sequences (VT220 / xterm), independent of the implementation's structure."""


def ctrl_table(key):
    """control combinations: key symbol value -> byte"""
    t = {}

    def put(b, *names):
        for n in names:
            t[key(n)] = bytes([b])
    put(0, '2', 'space')
    for i in range(26):
        put(i + 1, chr(97 + i), chr(65 + i))
    put(0x1b, '3', 'bracketleft', 'braceleft')
    put(0x1c, '4', 'backslash', 'bar')
    put(0x1d, '5', 'bracketright', 'braceright')
    put(0x1e, '6', 'grave', 'asciitilde')
    put(0x1f, '7', 'slash', 'question')
    put(0x7f, '8')
    return t


FKEYS = [('F1', b'\x1bOP', b'\x1b[23~'), ('F2', b'\x1bOQ', b'\x1b[24~'), ('F3', b'\x1bOR', b'\x1b[25~'), ('F4', b'\x1bOS', b'\x1b[26~'),
         ('F5', b'\x1b[15~', b'\x1b[28~'), ('F6', b'\x1b[17~', b'\x1b[29~'), ('F7', b'\x1b[18~', b'\x1b[31~'),
         ('F8', b'\x1b[19~', b'\x1b[32~'), ('F9', b'\x1b[20~', b'\x1b[33~'), ('F10', b'\x1b[21~', b'\x1b[34~'),
         ('F11', b'\x1b[23~', b'\x1b[23;2~'), ('F12', b'\x1b[24~', b'\x1b[24;2~'), ('F13', b'\x1b[25~', b'\x1b[25;2~'),
         ('F14', b'\x1b[26~', b'\x1b[26;2~'), ('F15', b'\x1b[28~', b'\x1b[28;2~'), ('F16', b'\x1b[29~', b'\x1b[29;2~'),
         ('F17', b'\x1b[31~', b'\x1b[31;2~'), ('F18', b'\x1b[32~', b'\x1b[32;2~'), ('F19', b'\x1b[33~', b'\x1b[33;2~'),
         ('F20', b'\x1b[34~', b'\x1b[34;2~')]


def key_table(key):
    """key symbol value -> decision list [(conditions, bytes)]; conditions: 'ctrl','shift','ckm','kpam','lnm','del'"""
    t = {}

    def put(names, *rules):
        for n in names.split():
            t[key(n)] = list(rules)
    put('BackSpace', (('del',), b'\x7f'), ((), b'\x08'))
    put('Tab KP_Tab', ((), b'\x09'))
    put('ISO_Left_Tab', ((), b'\x1b[Z'))
    put('Linefeed', ((), b'\x0a'))
    put('Clear', ((), b'\x0b'))
    put('Sys_Req', ((), b'\x15'))
    put('Escape', ((), b'\x1b'))
    put('KP_Enter', (('kpam',), b'\x1bOM'), (('lnm',), b'\r\n'), ((), b'\r'))
    put('Return', (('lnm',), b'\r\n'), ((), b'\r'))
    put('Find', ((), b'\x1b[1~'))
    put('Insert', ((), b'\x1b[2~'))
    put('Delete', ((), b'\x1b[3~'))
    put('Select', ((), b'\x1b[4~'))
    put('Page_Up KP_Page_Up', ((), b'\x1b[5~'))
    put('Page_Down KP_Page_Down', ((), b'\x1b[6~'))
    for n, c in (('Up', b'A'), ('Down', b'B'), ('Right', b'C'), ('Left', b'D')):
        put(n + ' KP_' + n, (('ctrl',), b'\x1b[1;5' + c), (('ckm',), b'\x1bO' + c), ((), b'\x1b[' + c))
    for n, c in (('Home', b'H'), ('End', b'F')):
        put(n + ' KP_' + n, (('ckm',), b'\x1bO' + c), ((), b'\x1b[' + c))
    for i in range(10):
        put('KP_%d' % i, (('kpam',), b'\x1bO' + bytes([0x70 + i])), ((), b'%d' % i))
    put('KP_Insert', (('kpam',), b'\x1bOp'), ((), b'0'))
    for n, a, c in (('Subtract', b'm', b'-'), ('Separator', b'l', b','), ('Delete', b'n', b'.'), ('Decimal', b'n', b'.'),
                    ('Divide', b'j', b'/'), ('Equal', b'j', b'/'), ('Multiply', b'o', b'*'), ('Add', b'k', b'+')):
        put('KP_' + n, (('kpam',), b'\x1bO' + a), ((), c))
    put('KP_Space', ((), b' '))
    for n, plain, shift in FKEYS:
        put(n, (('shift',), shift), ((), plain))
        if n in ('F1', 'F2', 'F3', 'F4'):
            put('KP_' + n, (('shift',), shift), ((), plain))
    return t
