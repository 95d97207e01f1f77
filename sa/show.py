"""Readable rendering of terms, guards and events for reports."""
from .interp import is_const


def show(I, t, depth=0, contents=None):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 7:
        return '...'
    s = lambda x: show(I, x, depth + 1, contents)
    k = t[0]
    if k == 'const':
        return repr(t[1])
    if k == 'param':
        return t[1]
    if k == 'attr':
        return '%s.%s' % (s(t[1]), t[2])
    if k == 'item':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'elem':
        return 'each(%s)' % (s(t[1]),) if not isinstance(t[2], int) else 'each#%d(%s)' % (t[2], s(t[1]))
    if k == 'idx':
        return 'index' if not isinstance(t[1], int) else 'index#%s' % (t[1],)
    if k == 'tuple':
        return '(%s)' % ', '.join(s(x) for x in t[1:])
    if k == 'enum':
        return '%s.%s' % (t[1], t[2])
    if k == 'call':
        a = ', '.join([s(x) for x in t[3]] + ['%s=%s' % (n, s(v)) for n, v in t[4]])
        return '%s%s(%s)' % (s(t[2]) + '.' if t[2] is not None else '', t[1], a)
    if k == 'op':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'uop':
        return '%s%s' % (t[1], s(t[2]))
    if k == 'cat':
        return "cat(%s)" % ', '.join(s(x) for x in t[1:])
    if k == 'ite':
        return '(%s if %s else %s)' % (s(t[2]), guard(I, t[1], depth + 1), s(t[3]))
    if k == 'bool':
        return '<%s>' % guard(I, t[1], depth + 1)
    if k == 'new':
        c = (contents if contents is not None else I.contents).get(t[2])
        if c is None:
            return '%s#%d' % (t[1], t[2])
        out = []
        for g in c[:12]:
            pre = ''
            if g[2]:
                pre += 'for %s ' % ','.join('#%d in %s' % (L, s(I.loops[L].coll)) for L in g[2] if L in I.loops)
            if g[1] != 1:
                pre += 'if %s ' % guard(I, g[1], depth + 1)
            v = s(g[3]) + (': ' + s(g[4]) if g[0] == 'kv' else '')
            out.append(('*' if g[0] == 'ext' else '') + v + (' ' + pre if pre else ''))
        return '%s[%s]' % (t[1], '; '.join(out))
    if k in ('class', 'builtin', 'ext', 'name'):
        return str(t[1])
    if k == 'obj':
        return '<%s#%s>' % (t[1], t[2])
    if k in ('==', '<', 'in'):
        return '%s %s %s' % (s(t[1]), k, s(t[2]))
    if k == 'truthy':
        return s(t[1])
    if k == 'isnone':
        return '%s is None' % s(t[1])
    if k == 'exists':
        return 'exists(%s: %s)' % (','.join('#%d in %s' % (L, s(c)) for L, c in zip(t[3], t[1])),
                                   guard(I, t[2], depth + 1))
    if k == 'slice':
        return '%s:%s:%s' % tuple('' if is_const(x) and x[1] is None else s(x) for x in t[1:])
    if k == 'phi':
        return 'phi#%s(%s)' % (t[1], t[2] if isinstance(t[2], str) else s(t[2]))
    if k == 'newc':
        out = []
        for g in t[2][:12]:
            v = s(g[3]) + (': ' + s(g[4]) if g[0] == 'kv' else '')
            for l in g[2]:
                v += ' for each of ' + s(l[0])
            if g[1] != 1:
                v += ' if ' + guard(I, g[1], depth + 1)
            out.append(('*' if g[0] == 'ext' else '') + v)
        return '%s[%s]' % (t[1], '; '.join(out))
    if k == 'objc':
        return '%s(%s)' % (t[1], ', '.join([s(x) for x in (t[2] if len(t) > 2 else ())] +
                                           ['%s=%s' % (n, s(v)) for n, v in (t[3] if len(t) > 3 else ())]))
    if k == 'kw':
        return '%s=%s' % (t[1], s(t[2]))
    if k == 'a':
        return '%s.%s' % (s(t[1]), t[2])
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) else repr(x) for x in t[1:]))


def guard(I, g, depth=0):
    return I.B.show(g, lambda a: show(I, a, depth + 1))


def show_event(I, e):
    s = lambda x: show(I, x, 0, e.contents) if isinstance(x, tuple) else repr(x)
    out = '%4d %-8s' % (e.pos, e.kind)
    if e.kind in ('store', 'setattr', 'delattr'):
        out += '%s.%s = %s' % (s(e.base), e.name if isinstance(e.name, str) else s(e.name), s(e.value))
    elif e.kind in ('setitem', 'delitem'):
        out += '%s[%s] = %s' % (s(e.base), s(e.name), s(e.value))
    elif e.kind in ('append', 'extend', 'update', 'pop'):
        out += '%s <- %s' % (s(e.base), s(e.value))
    elif e.kind in ('call', 'mkexc'):
        out += '%s%s(%s)%s' % (s(e.base) + '.' if e.base is not None else '', e.name,
                               ', '.join([s(a) for a in e.args] + ['%s=%s' % (k, s(v)) for k, v in e.kwargs.items()]),
                               ' [inlined]' if e.inlined else '')
    elif e.value is not None:
        out += s(e.value)
    if e.guard != 1:
        out += '   IF ' + guard(I, e.guard)
    if e.loops:
        out += '   FOR ' + ','.join('#%d in %s' % (L, s(I.loops[L].coll)) for L in e.loops)
    out += '   @' + e.where()
    return out
