"""C17: public calls tolerate missing objects and missing callbacks."""
import re

from tsa import load
from . import c18
from .c03 import jobs as parser_jobs, step as parser_step
from .inputs import *
from .nest import api_calls, stub_nested
from .ops import pool

RULE = ('every function of the public header is interpreted with its object missing and arbitrary other arguments, and with every other '
        'mandatory pointer missing in turn: no object is read or written, nothing is allocated or called back, and the result is an error '
        'or neutral; every parser step and call of a terminal without optional callbacks is interpreted, none may be called')
# pointers that may be missing by design: (function, parameter name or position) -> why
OPTIONAL = {('tsm_vte_set_palette', 'palette_name'): 'documented: resets to the default palette',
            ('tsm_vte_set_custom_palette', 'palette'): 'removes the custom palette',
            ('tsm_ucs4_to_utf8_alloc', 'len_out'): 'the length is not wanted'}
CALLBACK = re.compile(r'^(tsm_log_t|tsm_vte_osc_cb|tsm_vte_mouse_cb)\b')


class Stop(Exception):
    pass


def signature():
    """{function: (result type, [(parameter type, name)])} of the public header"""
    import json
    r = c18.clang(['-fsyntax-only', '-Xclang', '-ast-dump=json'], '#include "libtsm.h"\n')
    if r.returncode:
        raise ir.IRError('cannot parse libtsm.h: ' + r.stderr[-300:])
    out = {}

    def walk(n):
        if n.get('kind') == 'FunctionDecl' and n['name'].startswith('tsm_'):
            ps = [(k['type'].get('desugaredQualType', k['type']['qualType']), k['type']['qualType'], k.get('name', '')) for k in n.get('inner', ())
                  if k.get('kind') == 'ParmVarDecl']
            out[n['name']] = (n['type']['qualType'].split('(')[0].strip(), ps)
        for k in n.get('inner', ()):
            walk(k)
    walk(json.loads(r.stdout))
    return out


def is_ptr(ty):
    return '*' in ty


def run_missing(r, job):
    fn, i, rty, ps, obj = job
    mod = load.module('lib')
    f = mod.funcs.get(fn)
    if f is None or f.decl:
        raise ir.IRError('anchor: public function %s not defined' % fn)
    e = Engine(mod)
    e.trace_alloc = True
    e.alloc_fail = False
    what = '%s without its %s' % (fn, ps[i][2] or 'argument %d' % i)
    hit = []

    def touch(kind):
        def g(st, o, p, *_):
            if o.kind in ('opaque', 'arg'):
                if kind == 'read' and not obj:
                    return
                hit.append('%s %s' % ('reads' if kind == 'read' else 'writes', o.name))
                raise Stop
        return g
    e.on_store = touch('write')

    def onload(st, o, p, x):
        touch('read')(st, o, p)
    e.on_load = onload

    def cb(e, st, x, name, vals):
        hit.append('calls %s back' % name)
        raise Stop
    e.callback = lambda st, x, name, vals: cb(e, st, x, name, vals)
    st = e.new_state()
    args = []
    for k, (cty, ty, name) in enumerate(ps):
        if k == i:
            args.append(NULL)
        elif is_ptr(cty):
            o = e.newobj(name or 'argument %d' % k, 'opaque', None, None, 'opaque')
            if obj:
                # with the object missing the others may be missing too
                args.append(PSym(e.newpsym(name, True, lambda e, st, q=o.id: Ptr(q))))
            else:
                args.append(Ptr(o.id))
        else:
            p = f.params[k]
            ty = p[0] if isinstance(p[0], tuple) else p[1]
            args.append(e.fresh(ty[1], name))
    try:
        outs = e.run(fn, args, st)
    except Stop:
        outs = []
    except Exception:
        # not refused before the work on the (arbitrary) other arguments begins
        hit.append('does not return at once')
        outs = []
    r.ob('no effect', not hit, fn, '%s %s' % (what, hit[0] if hit else ''))
    if not hit:
        r.ob('returns', len(outs) > 0, fn, '%s does not return' % what)
    for s, v in outs:
        live = [q for q in s.events() if q[0] == 'alloc' and q[1] not in s.freed]
        r.ob('nothing allocated', not live, fn, '%s allocates memory that is lost' % what)
        if v is None or rty == 'void':
            continue
        if not isinstance(v, Int):
            r.ob('neutral result', e.resolve(s, v) == NULL, fn, '%s returns a pointer' % what)
        elif rty == 'int':
            k = s.const(v.l)
            r.ob('reported', k is not None and (k & 0x80000000) != 0, fn, '%s returns %s, not an error' % (what, k if k is not None else 'an arbitrary number'))
        else:
            k = s.const(v.l)
            r.ob('neutral result', k == 0, fn, '%s returns %s' % (what, k if k is not None else 'an arbitrary value'))
    r.engine(e, ('null', 'uaf', 'uninit', 'undef', 'free', 'bounds'))


def absent(v, st):
    for f in ('osc_cb', 'mouse_cb', 'llog'):
        v.set(st, f, NULL, 8)


def run_step(r, job):
    def prep(r, v, st):
        absent(v, st)
        called(v, r)
    parser_step(r, job, prep)


def called(v, r):
    old = v.e.callback

    def cb(st, x, name, vals):
        r.ob('absent callbacks are not called', name not in ('osc_cb', 'mouse_cb', 'llog'), name, 'calls %s although it was not provided' % name)
        return old(st, x, name, vals)
    v.e.callback = cb


def run_call(r, fn):
    mod = load.module('lib')
    mk = dict(api_calls(mod))[fn]
    v, t, st = terminal(r, mod, None, 0, 0)
    pin_flags(v, st, PREPEND_ESCAPE=0)
    stub_nested(v, t)
    absent(v, st)
    called(v, r)
    v.e.run(fn, [v.p] + mk(v.e, v), st)
    r.engine(v.e, ('null',))


def run_log(r, fn):
    """the helper behind all log messages, without a log callback"""
    mod = load.module('lib')
    f = mod.funcs[fn]
    e = Engine(mod)
    e.stubs.pop(fn, None)
    st = e.new_state()
    called = []
    er = e.newobj('errno', 'opaque', None, None, 'opaque')
    e.stubs['__errno_location'] = lambda e, st, x, a: [(st, Ptr(er.id))]

    def cb(st, x, name, vals):
        called.append(name)
        return [(st, None)]
    e.callback = cb
    args = []
    for k, p in enumerate(f.params):
        ty = p[0] if isinstance(p[0], tuple) else p[1]
        if ty == ('p',):
            o = e.newobj('text %d' % k, 'opaque', None, None, 'opaque')
            args.append(NULL if k == 0 else Ptr(o.id))
        else:
            args.append(e.fresh(ty[1], 'arg'))
    outs = e.run(fn, args, st)
    r.ob('absent callbacks are not called', bool(outs) and not called, fn, fn + '() calls the log function although there is none')
    r.engine(e, ('null',))


def check(Check):
    c = Check('C17', 'proof', RULE)
    sig = signature()
    mod = load.module('lib')
    jobs, npar = [], 0
    for fn, (rty, ps) in sorted(sig.items()):
        for i, (cty, ty, name) in enumerate(ps):
            if not is_ptr(cty):
                continue
            obj = i == 0 and re.fullmatch(r'struct tsm_\w+ \*', ty) is not None
            if not obj:
                if 'void' in ty.split('*')[0] and ty.count('*') == 1 and 'const char' not in ty:
                    continue       # user data
                if CALLBACK.match(ty) or (fn, name) in OPTIONAL:
                    continue
            jobs.append((fn, i, rty, ps, obj))
    c.floor('public functions', len(sig), 70)
    c.floor('missing arguments', len(jobs), 75)
    pool(c, jobs, run_missing)
    j2 = []
    for S, lo, hi, args, mode in parser_jobs(False):
        if mode is None and (not args or len(args) <= 2 and (args == [None] * len(args) or lo in (0x68, 0x6c))):
            j2.append((S, lo, hi, args, mode))
    # every private mode that has to do with the mouse
    m = load.macro
    for f in (0x68, 0x6c):
        for k in ('TSM_VTE_MOUSE_MODE_X10', 'TSM_VTE_MOUSE_EVENT_BTN', 'TSM_VTE_MOUSE_EVENT_ANY', 'TSM_VTE_MOUSE_MODE_SGR', 'TSM_VTE_MOUSE_MODE_PIXEL'):
            j2.append(('CSI_PARAM', f, f, [m(k)], None))
    pool(c, j2, run_step)
    logs = [n for n, f in sorted(mod.funcs.items()) if n.startswith('llog_format') and not f.decl]
    pool(c, logs, run_log)
    c.cov['log helpers'] = logs
    calls = [n for n, _ in api_calls(mod)]
    pool(c, calls, run_call)
    c.floor('parser steps without callbacks', len(j2), 100)
    c.floor('calls without callbacks', len(calls), 8)
    c.sample('pointers that may be missing: %s' % sorted('%s.%s: %s' % (a, b, w) for (a, b), w in OPTIONAL.items()))
    return c.finish()
