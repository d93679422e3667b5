"""Documented ANSI and DEC private modes and their effects."""
from tsa import load
from .c32 import mod_flag

# code -> (terminal mode, screen flag or None, inverted in the screen)
ANSI = {2: ('KEYBOARD_ACTION_MODE', None, 0), 4: ('INSERT_REPLACE_MODE', 'INSERT_MODE', 0), 12: ('SEND_RECEIVE_MODE', None, 0),
        20: ('LINE_FEED_NEW_LINE_MODE', None, 0)}
DEC = {1: ('CURSOR_KEY_MODE', None, 0), 5: ('INVERSE_SCREEN_MODE', 'INVERSE', 0), 6: ('ORIGIN_MODE', 'REL_ORIGIN', 0),
       7: ('AUTO_WRAP_MODE', 'AUTO_WRAP', 0), 8: ('AUTO_REPEAT_MODE', None, 0), 25: ('TEXT_CURSOR_MODE', 'HIDE_CURSOR', 1),
       42: ('NATIONAL_CHARSET_MODE', None, 0)}
ALT = (47, 1047, 1048, 1049)
MOUSE = (9, 1002, 1003, 1006, 1016)
MIRROR = [(m, s, inv) for t in (ANSI, DEC) for m, s, inv in t.values() if s]


def scr(n):
    return load.macro('TSM_SCREEN_' + n)


def idx(mode):
    return mod_flag(mode).bit_length() - 1


class Effect:
    """specified effect of a list of modes on an abstract terminal"""

    def __init__(self, bits, alt):
        self.bits = list(bits)        # terminal mode bits
        self.alt = alt                # saved alternate cursor (x, y)
        self.calls = []
        self.mouse = False

    def apply(self, priv, code, on, inhibit, cur):
        S = self.calls.append
        f = 'tsm_screen_set_flags' if on else 'tsm_screen_reset_flags'
        g = 'tsm_screen_reset_flags' if on else 'tsm_screen_set_flags'
        e = (DEC if priv else ANSI).get(code)
        if e:
            self.bits[idx(e[0])] = int(on)
            if e[1]:
                S((g if e[2] else f, [scr(e[1])]))
            return
        if not priv:
            return
        if code in MOUSE:
            self.mouse = True
        if code not in ALT or inhibit:
            return
        A = scr('ALTERNATE')
        rel = self.bits[idx('ORIGIN_MODE')]

        def goto():
            if rel:
                S(('tsm_screen_reset_flags', [scr('REL_ORIGIN')]))
            S(('tsm_screen_move_to', list(self.alt)))
            if rel:
                S(('tsm_screen_set_flags', [scr('REL_ORIGIN')]))
        if code == 47:
            S((f, [A]))
        elif code == 1047:
            if not on:
                S(('tsm_screen_erase_screen', [0]))
            S((f, [A]))
        elif code == 1048:
            if on:
                self.alt = cur
            else:
                goto()
        elif on:
            self.alt = cur
            S((f, [A]))
            S(('tsm_screen_erase_screen', [0]))
        else:
            S((f, [A]))
            goto()
