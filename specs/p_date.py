"""Dates and times (property V03)."""
from .baselib import *

MODULE = 'base'
D = r'kmlbase::DateTime::'
OFF = dict(sec=0, min=4, hour=8, mday=12, mon=16, year=20)


def fdiv(x, n):
    return x / z3.IntVal(n)          # SMT integer division: floor for a positive divisor


def leap(y):
    return And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))


def CF(y):
    """days from 0001-01-01 to January 1st of year y (proleptic Gregorian calendar)"""
    p = y - 1
    return 365 * p + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400)


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def before_month(y, m):
    r = z3.IntVal(CUM[12])
    for i in reversed(range(12)):
        r = z3.If(m <= i, z3.IntVal(CUM[i]), r)
    return r + z3.If(And(leap(y), m > 1), 1, 0)


def calendar(b):
    """lemma about the specification itself: the closed form counts 365 or 366 days a year, and is 719162 at the epoch"""
    ex = new_exec(b)
    st = start(ex)
    y = z3.Int('y')
    ex.axiom(y >= 1)
    ex.oblige('calendar: each year has 365 or 366 days', True, Eq(CF(y + 1) - CF(y), z3.If(leap(y), z3.IntVal(366), z3.IntVal(365))))
    ex.oblige('calendar: 1970-01-01 is day 719162', True, Eq(simp(CF(z3.IntVal(1970))), 719162))
    m = z3.Int('m')
    nd = z3.IntVal(31)
    for i, n in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]):
        nd = z3.If(m == i, z3.If(leap(y), z3.IntVal(29), z3.IntVal(28)) if i == 1 else z3.IntVal(n), nd)
    ex.oblige('calendar: the months have their lengths', And(m >= 0, m < 12), Eq(before_month(y, m + 1) - before_month(y, m), nd))
    ex.under_contract = []
    ex.covers = [st.cond]
    return ex


def timet(b):
    ex = new_exec(b)
    st = start(ex)
    this = ex.new_input_obj()
    v = {k: z3.Int('tm_' + k) for k in OFF}
    lim = dict(sec=(0, 60), min=(0, 59), hour=(0, 23), mday=(1, 31), mon=(0, 11), year=(-1899, 8099))
    for k, o in OFF.items():
        ex.axiom(And(v[k] >= lim[k][0], v[k] <= lim[k][1]))
        set_range(v[k], *lim[k])
        st.mem = ex.m.store(st.mem, this.plus(o), 'i32', v[k])
    ty = v['year'] + 1900
    E0 = CF(z3.IntVal(1970))

    def gen(ex, rec):
        for nm, g, n in rec.ints:
            for nm2, g2, n2 in rec.ints:
                if nm2 == nm:
                    continue
                y = lambda t, g2=g2: zi(g2(t)) + 1900
                r = lambda t, g=g: zi(g(t))
                hi = z3.If(ty > 1970, ty, z3.IntVal(1970))
                c = [('days of the years from the epoch to', lambda t, r=r, y=y: Eq(r(t), CF(y(t)) - E0)),
                     ('days of the years back from the epoch to', lambda t, r=r, y=y: Eq(r(t), CF(hi) - E0 + CF(ty) - CF(y(t)))),
                     ('days of the years and of the months to', lambda t, r=r, y=y: Eq(r(t), CF(ty) - E0 + before_month(ty, y(t) - 1900))),
                     ('days of the months to', lambda t, r=r, y=y: Eq(r(t), before_month(ty, y(t) - 1900)))]
                for w, fn in c:
                    ex.add_cand(rec, '%s: %s %s' % (nm, w, nm2), fn)
            ex.add_cand(rec, nm + ' between the epoch and the year', lambda t, g=g: And(zi(g(t)) >= 70, Or(zi(g(t)) <= v['year'], zi(g(t)) == 70)))
            ex.add_cand(rec, nm + ' between the year and the epoch', lambda t, g=g: And(zi(g(t)) >= v['year'], Or(zi(g(t)) <= 70, zi(g(t)) == v['year'])))
            ex.add_cand(rec, nm + ' within the months', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= v['mon']))
    ex.inv_gens.append(gen)
    f = b.fn(D + r'GetTimeT\(\) const')
    r = ex.call(f, [this], st)
    days = CF(ty) - E0 + before_month(ty, v['mon']) + v['mday'] - 1
    ex.oblige('GetTimeT() is the number of seconds from the epoch to the date and time', st.cond, Eq(r, ((days * 24 + v['hour']) * 60 + v['min']) * 60 + v['sec']))
    for k, o in OFF.items():
        ex.oblige('GetTimeT() leaves the date alone', st.cond, Eq(ex.m.load(st.mem, this.plus(o), 'i32'), v[k]))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


FMTS = {b'%Y-%m-%d': 10, b'%H:%M:%S': 8}
ISO = b'%Y-%m-%dT%H:%M:%SZ'


def libc(ex, calls):
    """strptime / strftime of libc, assumed: strptime reads the whole broken-down time or fails; strftime writes the formatted text when it fits"""
    I = z3.IntSort()
    OK = z3.Function('strptime.ok', ex.S, ex.S, z3.BoolSort())
    FLD = {k: z3.Function('strptime.' + k, ex.S, ex.S, I) for k in OFF}
    OUT = {f: [z3.Function('strftime.%s.%d' % (f.decode(), i), *([I] * 7)) for i in range(n)] for f, n in FMTS.items()}
    end = ex.new_input_obj()

    def sp(ex, n, a, st):
        '''libc: strptime (assumed)'''
        t, f = ex.lib.cstr_of(a[0], st), ex.lib.cstr_of(a[1], st)
        ok = OK(t, f)
        calls.append((t, f, a[2], st.cond))
        for k, o in OFF.items():
            p = a[2].plus(o)
            old = ex.m.load(st.mem, p, 'i32')
            st.mem = ex.m.store(st.mem, p, 'i32', ite(ok, FLD[k](t, f), old))
        return ite(ok, end, NULL)

    def sf(ex, n, a, st):
        '''libc: strftime (assumed)'''
        f = ex.lib.str.litval(ex.lib.cstr_of(a[2], st))
        if f not in FMTS:
            raise Unsupported('strftime format')
        ln = FMTS[f]
        ex.oblige('the buffer holds the formatted text and its end', st.cond, Eq(ge(a[1], ln + 1), True))
        fl = [zi(ex.m.load(st.mem, a[3].plus(o), 'i32')) for o in OFF.values()]
        for i in range(ln):
            c = OUT[f][i](*fl)
            ex.axiom(And(c > 0, c < 128))
            st.mem = ex.m.store(st.mem, a[0].plus(i), 'i8', c)
        st.mem = ex.m.store(st.mem, a[0].plus(ln), 'i8', 0)
        return ln
    ex.contracts.append((RX(r'^strptime$'), sp))
    ex.contracts.append((RX(r'^strftime$'), sf))
    return OK, FLD, OUT


def texts(b):
    ex = new_exec(b)
    st = start(ex)
    calls = ex.newlog()
    OK, FLD, OUT = libc(ex, calls)
    S = ex.lib.str
    t = z3.Const('text', ex.S)
    r = ex.alloc()
    st.mem = ex.m.store(st.mem, r, 'str', t)
    iso = S.lit(ISO)
    f = b.fn(D + r'Create\(')
    p = ex.call(f, [r], st)
    isnull = Eq(p.obj, 0) if not isinstance(p, int) else True
    ex.oblige('Create() gives a date exactly for the texts of the form YYYY-MM-DDTHH:MM:SSZ', st.cond, zb(Not(isnull)) == OK(t, iso))
    okc = And(st.cond, OK(t, iso))
    for k, o in OFF.items():
        ex.oblige('Create(): the %s is the one in the text' % k, okc, Eq(ex.m.load(st.mem, p.plus(o), 'i32'), FLD[k](t, iso)))
    fl = [FLD[k](t, iso) for k in OFF]
    g = {}
    for nm, fm in (('GetXsdDate', b'%Y-%m-%d'), ('GetXsdTime', b'%H:%M:%S')):
        s = copyst(st, okc)
        ret = ex.alloc()
        g[nm] = b.fn(D + nm + r'\(')
        ex.call(g[nm], [ret, p], s)
        x = ex.m.load(s.mem, ret, 'str')
        n = FMTS[fm]
        ex.oblige('%s() has %d characters' % (nm, n), s.cond, Eq(S.len(x), n))
        for i in range(n):
            ex.oblige('%s(): character %d' % (nm, i), s.cond, Eq(S.at(x, i), OUT[fm][i](*fl)))
    s = copyst(st, okc)
    ret = ex.alloc()
    h = b.fn(D + r'GetXsdDateTime\(')
    ex.call(h, [ret, p], s)
    x = ex.m.load(s.mem, ret, 'str')
    ex.oblige('GetXsdDateTime() has 20 characters', s.cond, Eq(S.len(x), 20))
    want = [OUT[b'%Y-%m-%d'][i](*fl) for i in range(10)] + [84] + [OUT[b'%H:%M:%S'][i](*fl) for i in range(8)] + [90]
    for i, w in enumerate(want):
        ex.oblige('GetXsdDateTime(): character %d' % i, s.cond, Eq(S.at(x, i), w))
    ex.under_contract = [b.m.dem[x] for x in (f, h, *g.values())]
    ex.covers = [st.cond]
    return ex


def copyst(st, cond):
    return type(st)(cond, st.mem, dict(st.env))


def totime(b):
    ex = new_exec(b)
    st = start(ex)
    calls = ex.newlog()
    OK, FLD, OUT = libc(ex, calls)
    T = z3.Function('time_of', *([z3.IntSort()] * 7))

    def gt(ex, n, a, st):
        '''seconds since the epoch of the date (verified: GetTimeT)'''
        return T(*[zi(ex.m.load(st.mem, a[0].plus(o), 'i32')) for o in OFF.values()])
    ex.contracts.append((RX(r'^kmlbase::DateTime::GetTimeT'), gt))
    S = ex.lib.str
    t = z3.Const('text', ex.S)
    r = ex.alloc()
    st.mem = ex.m.store(st.mem, r, 'str', t)
    iso = S.lit(ISO)
    f = b.fn(D + r'ToTimeT\(')
    v = ex.call(f, [r], st)
    ex.oblige('ToTimeT() is the time of the date in the text, 0 when it is none', st.cond, Eq(v, z3.If(OK(t, iso), T(*[FLD[k](t, iso) for k in OFF]), z3.IntVal(0))))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def units(b):
    return [Unit('calendar', lambda: calendar(b)), Unit('GetTimeT', lambda: timet(b), tmo=200),
            Unit('date texts', lambda: texts(b)), Unit('ToTimeT', lambda: totime(b))]
