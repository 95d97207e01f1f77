"""Effect specifications: a rule compares the effects of an entry point of the code with those of a specification
function interpreted over the same symbolic inputs."""
import ast
import os
import textwrap

from .bdd import TRUE, FALSE
from .effects import Side, SpecInterp, Effect, ANY, IDEMPOTENT, match, has_any, unknown, target_name
from .interp import Interp, is_const
from .show import show, guard as show_guard
from .world import Func, AnalysisError, Vanished


# calls that only read: they matter where their value is used, not as effects of their own
QUERIES = {'get_states', 'is_store_required', 'is_external_data_update_needed', 'read_variables', '_get_variables',
           'get_binded_items', 'range', 'len', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'sorted', 'keys',
           'values', 'items', 'get', 'isinstance', 'hasattr', 'str', 'int', 'float', 'join', 'format', 'copy', 'iter',
           'zeros', 'empty', 'array', 'full', 'ones', 'empty_like', 'zeros_like', 'argwhere', 'where', 'concat',
           'max', 'min', 'abs', 'sum', 'startswith', 'endswith', 'split', 'any', 'all', 'bool', 'type', 'map',
           'time', 'getattr', 'id', 'index', 'array_equal', 'reversed', 'round', 'super', 'replace', 'count'}


class Finding:
    def __init__(self, rule, what, where):
        self.rule, self.what, self.where = rule, what, where

    def key(self):
        return '%s | %s' % (self.rule, self.what)


class Ctx:
    """state of one check: the analysed world, obligations, findings"""

    def __init__(self, world):
        self.w = world
        self.tier = 'quick'
        self.traces = {}
        self.findings = []
        self.obligations = []      # (rule, text, status)
        self.functions = set()
        self.undecided = []
        self.sites = 0

    def ok(self, rule, text):
        self.obligations.append((rule, text, 'holds'))

    def bad(self, rule, what, where):
        self.obligations.append((rule, what, 'violated'))
        self.findings.append(Finding(rule, what, where))

    def check(self, cond, rule, text, where, what=None):
        if cond:
            self.ok(rule, text)
        else:
            self.bad(rule, what or text, where)
        return cond

    def unknown(self, rule, text):
        self.obligations.append((rule, text, 'undecided'))
        self.undecided.append((rule, text))

    def lost(self, rule, e):
        """a construct the rule is about is gone: without an override, what it overrides applies"""
        n = e.name.rpartition('.')[2] if isinstance(e, Vanished) else ''
        if n.startswith('__') and n.endswith('__') or 'visit' in n:
            self.bad(rule, '%s: what it did is gone (%s)' % (e.name, e), 'the package')
        else:
            self.unknown(rule, str(e))

    def run(self, fn):
        """one rule function; constructs the analysis cannot follow are recorded, a vanished anchor is an error"""
        try:
            fn(self)
        except AnalysisError as e:
            self.lost(fn.__name__, e)
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.unknown(fn.__name__, 'the analysis cannot follow this code: %s: %s' % (type(e).__name__, e))

    def trace(self, entry, opaque=(), depth=9, types=None, intrinsics=None, cls=None, drive=None):
        key = (entry, tuple(sorted(opaque)), depth, tuple(sorted((types or {}).items())), cls, drive)
        if intrinsics is None and key in self.traces:
            return self.traces[key]
        f = self.w.func(entry)
        if drive is not None:
            f = driver(f, drive)
            depth += 1
        ty = {}
        for k, v in (types or {}).items():
            ty[term(k)] = self.w.cls(v)
        it = Interp(self.w, opaque=opaque, max_depth=depth, types=ty, intrinsics=intrinsics)
        tr = it.run(f, self_cls=self.w.cls(cls) if cls else None)
        if tr.truncated:
            raise AnalysisError('%s: event budget exhausted' % entry)
        self.functions |= tr.inlined
        if intrinsics is None:
            self.traces[key] = tr
        return tr


def driver(anchor, src):
    """a synthetic caller in the place of `anchor`: what a user of the code does with it"""
    node = ast.parse(textwrap.dedent(src)).body[0]
    for n in ast.walk(node):
        if hasattr(n, 'lineno'):
            n.lineno = n.end_lineno = anchor.node.lineno
    f = Func(anchor.module, node, anchor.cls, qual='caller of ' + anchor.qual)
    return f


def term(s):
    """'self.model.x' -> term"""
    ps = s.split('.')
    t = ('param', ps[0])
    for p in ps[1:]:
        t = ('attr', t, p)
    return t


def spec_trace(ctx, code, src, inline=(), opaque=()):
    """interpret the specification over the parameters of the code's entry point"""
    tree = ast.parse(textwrap.dedent(src))
    defs = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
    main = defs[0]
    helpers = defs[1:]
    main.body = helpers + main.body
    for n in ast.walk(main):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            n.is_spec = True
    f = code.entry
    sf = Func(f.module, main, f.cls, qual='spec:' + f.qual)
    sf.is_spec = True
    sf.decorators = f.decorators
    ci = code.interp
    it = SpecInterp(ctx.w, inline=tuple(inline) + ('__init__',), max_depth=20, types=ci.types, opaque=opaque)
    it.B = ci.B
    it.loops = ci.loops
    it.uid = ci.uid + 1000
    it.funcs = ci.funcs
    a = f.node.args
    cn = [p.arg for p in a.posonlyargs + a.args]
    sn = [p.arg for p in main.args.args]
    args = {}
    byname = len(sn) < len(cn) and set(sn) <= set(cn)
    for i, p in enumerate(sn):
        if byname and i > 0:
            args[p] = ('param', p)
        elif i < len(cn) and not (i == 0 and f.cls is not None and not f.is_static):
            args[p] = ('param', cn[i])
    tr = it.run(sf, self_cls=code_cls(code), args=args)
    ci.uid = it.uid
    for t, v in ci.contents.items():
        tr.contents.setdefault(t, v)
    return tr


def code_cls(code):
    t = code.interp.types.get(('param', 'self'))
    return t or code.entry.cls


def loops_text(key):
    return ' '.join('for each of %s' % (l[0],) for l in key[2]) if key[2] else ''


def compare(ctx, rule, entry, src, **kw):
    """one obligation; a failure of the analysis itself concerns this obligation only. `src` may be a list of
    specifications of the same behaviour: one of them must fit"""
    try:
        if isinstance(src, str):
            return _compare(ctx, rule, entry, src, **kw)
        best = None
        for s in src:
            save = ctx.obligations, ctx.findings, ctx.undecided, ctx.sites
            ctx.obligations, ctx.findings, ctx.undecided = [], [], []
            r = _compare(ctx, rule, entry, s, **kw)
            got = ctx.obligations, ctx.findings, ctx.undecided, ctx.sites
            ctx.obligations, ctx.findings, ctx.undecided, ctx.sites = save
            score = (len(got[1]), len(got[2]))
            if best is None or score < best[0]:
                best = (score, got, r)
            if score == (0, 0):
                break
        ctx.obligations += best[1][0]
        ctx.findings += best[1][1]
        ctx.undecided += best[1][2]
        ctx.sites = best[1][3]
        return best[2]
    except AnalysisError as e:
        ctx.lost(rule, e)
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        if os.environ.get('SA_DEBUG'):
            raise
        ctx.unknown(rule, '%s: the analysis cannot follow this code: %s: %s' % (entry, type(e).__name__, e))


def destroys(e, side):
    """reorders or empties a container that others see: never part of a behaviour unless the specification says so"""
    if e.kind == 'delitem':
        return True
    return e.kind == 'call' and e.name in ('sort', 'reverse', 'clear') and e.event.base is not None and \
        not side.is_local(e.event.base)


def _compare(ctx, rule, entry, src, opaque=(), depth=9, types=None, inline=(), watch=(), mode='normal', result=None,
             raises=None, alias=None, ignore=(), cls=None, what='', extra_ok=(), code=None, order=True, seq=(),
             queries=QUERIES, drive=None, prep=None, intrinsics=None, effects=True):
    """The effects named in the specification (plus `watch`) must be exactly those of the code."""
    code = code or ctx.trace(entry, opaque, depth, types, cls=cls, drive=drive, intrinsics=intrinsics)
    spec = spec_trace(ctx, code, src, inline, opaque)
    I, B = code.interp, code.interp.B
    if prep is not None:
        for t in (code, spec):
            if not getattr(t, 'prepared', False):
                t.prepared = True
                prep(t)
    cs, ss = Side(code, ctx.w, alias), Side(spec, ctx.w, alias)
    sev = [e for e in ss.effects()]
    barriers = [e.pos for e in sev if e.kind == 'call' and e.name == 'THEN']
    sev = [e for e in sev if e.name not in ('THEN',)]
    wset = {(e.kind, e.name if isinstance(e.name, str) else e.key[1]) for e in sev} | set(watch)
    wset -= set(ignore)
    if not effects:
        wset = set()
    wset -= {(k, n) for k, n in wset if k == 'call' and n in queries and (k, n) not in watch}
    sev = [e for e in sev if (e.kind, e.name) in wset or not isinstance(e.name, str)]
    cev = [e for e in cs.effects()
           if (e.kind, e.name if isinstance(e.name, str) else e.key[1]) in wset or ((e.kind, '*') in wset)
           or effects and destroys(e, cs) and (e.kind, e.name) not in ignore]
    rej_c, rej_s = cs.reject, ss.reject
    norm = TRUE if mode == 'exact' else B.and_(B.not_(rej_c), B.not_(rej_s))
    name = what or entry

    def group(evs, side):
        gs = {}
        for e in evs:
            gs.setdefault(e.key, []).append(e)
        return gs
    cg, sg = group(cev, cs), group(sev, ss)

    def total(evs, also=()):
        n = norm
        if mode != 'exact':
            for e in list(evs) + list(also):
                n = B.and_(n, e.norm)
        return B.and_(B.or_(*[e.guard for e in evs]), n)

    def times(evs):
        if evs[0].kind in IDEMPOTENT or evs[0].kind == 'update':
            return 1
        n = 1
        for i in range(len(evs)):
            k = 1
            for j in range(len(evs)):
                if i != j and B.sat(B.and_(evs[i].guard, evs[j].guard, norm)) and evs[i].event is not evs[j].event:
                    k += 1
            n = max(n, k)
        return n
    used = set()
    missing = []
    matched = {}
    for key, evs in sg.items():
        tg = total(evs)
        if not B.sat(tg):
            continue
        cands = [key] if key in cg else []
        if not cands and has_any(key):
            cands = [k for k in cg if match(key, k)]
            cands = [k for k in cands if k not in sg] or cands
        if not cands:
            missing.append((key, evs, None, tg))
            continue
        call = [e for k in cands for e in cg[k]]
        used.update(cands)
        matched[key] = (evs, call)
        tg, g2 = total(evs, call), total(call, evs)
        if mode == 'weak':
            good = B.implies(g2, tg) and B.sat(g2)
        else:
            good = B.equiv(g2, tg)
        if not good:
            missing.append((key, evs, call, tg))
            continue
        if times(call) > times(evs):
            missing.append((key, evs, call, 'twice'))
            continue
        ctx.ok(rule, '%s: %s' % (name, describe(ss, evs[0])))
        ctx.sites += len(call)
    extra = [(k, evs) for k, evs in cg.items() if k not in used and B.sat(total(evs))]
    unk = lambda kind, nm: [k for k, evs in extra if k[0] == kind and k[1] == nm and unknown(k)]
    wh = code.entry.where()
    for key, evs, call, tg in missing:
        d = describe(ss, evs[0])
        if call is None:
            if unk(key[0], key[1]) and not unknown(key):
                ctx.unknown(rule, '%s: %s (the code computes it in a way the analysis cannot resolve)' % (name, d))
                continue
            near = nearest(key, [(k, e) for k, e in extra])
            ctx.bad(rule, '%s: expected effect not found: %s%s' % (
                name, d, '; found instead: ' + describe(cs, near) if near else ''),
                near.event.where() if near else wh)
        elif tg == 'twice':
            ctx.bad(rule, '%s: performed more than once: %s' % (name, d), call[-1].event.where())
        else:
            ctx.bad(rule, '%s: %s happens under the wrong condition: %s' % (
                name, describe(ss, evs[0], cond=False), show_guard(I, total(call))[:400]
                + ' instead of ' + show_guard(I, tg)[:400]), call[0].event.where())
    near_used = set()
    for k, evs in extra:
        if unknown(k):
            ctx.unknown(rule, '%s: unresolved %s' % (name, describe(cs, evs[0])))
            continue
        if any(m[0][0] == k[0] and m[0][1] == k[1] for m in missing if m[2] is None):
            continue        # reported with the missing effect
        if k[1] in extra_ok or (k[0], k[1]) in extra_ok:
            continue
        ctx.bad(rule, '%s: unexpected effect: %s' % (name, describe(cs, evs[0])), evs[0].event.where())
    # order across THEN() markers
    if barriers and order:
        for b in barriers:
            for k1, (s1, c1) in matched.items():
                for k2, (s2, c2) in matched.items():
                    if max(e.pos for e in s1) < b < min(e.pos for e in s2):
                        if max(e.pos for e in c1) > min(e.pos for e in c2):
                            if not any(B.sat(B.and_(x.guard, y.guard)) for x in c1 for y in c2 if x.pos > y.pos):
                                continue
                            ctx.bad(rule, '%s: %s must happen before %s' % (name, describe(ss, s1[0], False),
                                                                            describe(ss, s2[0], False)),
                                    c2[0].event.where())
                        else:
                            ctx.ok(rule, '%s: %s before %s' % (name, describe(ss, s1[0], False),
                                                               describe(ss, s2[0], False)))
    for n1, n2 in seq:
        e1 = [e for e in cev if e.name == n1]
        e2 = [e for e in cev if e.name == n2]
        if not e1 or not e2:
            ctx.unknown(rule, '%s: order of %s and %s' % (name, n1, n2))
            continue
        badp = [(x, y) for x in e1 for y in e2 if x.pos > y.pos and B.sat(B.and_(x.guard, y.guard))]
        if badp:
            ctx.bad(rule, '%s: %s must happen before %s' % (name, describe(cs, badp[0][0], False),
                                                            describe(cs, badp[0][1], False)), badp[0][1].event.where())
        else:
            ctx.ok(rule, '%s: %s before %s' % (name, n1, n2))
    # rejection
    if raises is None:
        raises = any(e.kind == 'raise' for e in spec.events)
    if raises:
        if B.equiv(rej_c, rej_s):
            ctx.ok(rule, '%s: rejects exactly when %s' % (name, show_guard(I, rej_s)[:200]))
        elif unknown(tuple(B.support(rej_c))) and not unknown(tuple(B.support(rej_s))):
            ctx.unknown(rule, '%s: rejection condition' % name)
        else:
            at = [e for e in code.events if e.kind == 'raise' and not e.exc]
            ctx.bad(rule, '%s: rejects when %s instead of when %s' % (
                name, show_guard(I, rej_c)[:400], show_guard(I, rej_s)[:400]), at[0].where() if at else wh)
    # result
    if result is None:
        result = any(e.kind == 'return' and not (is_const(e.value) and e.value[1] is None)
                     and e.func is spec.entry for e in spec.events)
    if result:
        rc, rs = merged(B, cs.results()), merged(B, ss.results())
        cm, sm = {}, {}
        for g, v in rc:
            cm[v] = B.or_(cm.get(v, FALSE), B.and_(g, norm))
        for g, v in rs:
            sm[v] = B.or_(sm.get(v, FALSE), B.and_(g, norm))
        good = True
        for v, g in sm.items():
            if not B.sat(g):
                continue
            c = [k for k in cm if match(v, k)]
            if not c or not B.equiv(B.or_(*[cm[k] for k in c]), g):
                good = False
        if good:
            ctx.ok(rule, '%s: returns %s' % (name, '; '.join(show(I, v)[:200] for v in sm)))
        elif any(unknown(v) for v in cm) and not any(unknown(v) for v in sm):
            ctx.unknown(rule, '%s: result' % name)
        else:
            rets = [e for e in code.events if e.kind == 'return' and e.func is code.entry]
            ctx.bad(rule, '%s: returns %s instead of %s' % (
                name, '; '.join('%s if %s' % (show(I, v)[:300], show_guard(I, g)[:200]) for v, g in cm.items()),
                '; '.join('%s if %s' % (show(I, v)[:300], show_guard(I, g)[:200]) for v, g in sm.items())),
                rets[0].where() if rets else wh)
    return code


def merged(B, results):
    """containers returned under different conditions are one container with conditional contents"""
    out, by = [], {}
    for g, v in results:
        if isinstance(v, tuple) and v[:1] == ('newc',):
            by.setdefault(v[1], []).append((g, v))
        else:
            out.append((g, v))
    for kind, lst in by.items():
        segs = []
        for g, v in lst:
            at = 0
            for x in v[2]:
                y = (x[0], B.and_(x[1], g)) + tuple(x[2:])
                for i in range(at, len(segs)):
                    if segs[i][:1] + segs[i][2:] == y[:1] + y[2:]:
                        segs[i] = (y[0], B.or_(segs[i][1], y[1])) + y[2:]
                        at = i + 1
                        break
                else:
                    segs.append(y)
                    at = len(segs)
        segs = [x for x in segs if B.sat(x[1])]
        if kind in ('set', 'dict') or segs and all(x[0] == 'kv' for x in segs):
            segs.sort(key=repr)
        out.append((B.or_(*[g for g, v in lst]), ('newc', kind, tuple(segs))))
    return out


def nearest(key, extra):
    best = None
    for k, evs in extra:
        if k[0] == key[0] and k[1] == key[1]:
            score = sum(1 for a, b in zip(k[3], key[3]) if a == b) + (k[2] == key[2])
            if best is None or score > best[0]:
                best = (score, evs[0])
    return best[1] if best else None


def describe(side, eff, cond=True):
    from .show import show_event
    e = eff.event
    if eff.key is None:
        return '?'
    I = side.I
    ps = eff.key[3]
    sh = lambda x: show(I, x, 2) if isinstance(x, tuple) else repr(x)
    k = eff.kind
    if k in ('store', 'setattr', 'delattr'):
        out = '%s.%s = %s' % (sh(ps[0]), eff.name if isinstance(eff.name, str) else '?', sh(ps[1]))
    elif k in ('setitem', 'delitem'):
        out = '%s[%s] = %s' % (sh(ps[0]), sh(ps[1]), sh(ps[2]))
    elif k == 'call':
        out = '%s%s(%s)' % (sh(ps[0]) + '.' if ps[0] is not None else '', eff.name, ', '.join(
            '%s=%s' % (x[1], sh(x[2])) if isinstance(x, tuple) and x and x[0] == 'kw' else sh(x) for x in ps[1:]))
    else:
        out = '%s.%s(%s)' % (sh(ps[0]), k, sh(ps[1]))
    if eff.key[2]:
        out += ' for each ' + ', '.join(sh(l[0]) + (' until a stop' if l[1] else '') for l in eff.key[2])
    if cond and eff.guard != TRUE:
        out += ' if ' + show_guard(I, eff.guard)[:300]
    return out[:900]
