"""NetCache: a bounded cache that discards its oldest entry (property F02)."""
from .baselib import *

MODULE = 'base'
N = r'kmlbase::NetCache<DvItem>::'
I = z3.IntSort()
MAX, MAP, CNT, NET = 0, 8, 56, 64


def mk(b, st, ex):
    """an arbitrary cache: offsets of its members from the real constructor"""
    this = ex.new_input_obj()
    ex.m.private.add(this.obj)
    net = ex.new_input_obj()
    mx = z3.Int('max_size')
    ex.axiom(And(mx >= 1, mx < (1 << 56)))
    ctor = b.fn(N + r'NetCache\(')
    ex.call(ctor, [this, net, mx], st)
    mp = this.plus(MAP)
    ex.oblige('a new cache is empty', st.cond, Eq(ex.call(b.fn(N + r'Size\(\) const'), [this], copy_(st)), 0))
    H = z3.Const('cached', z3.ArraySort(ex.S, z3.BoolSort()))
    n = z3.Int('size')
    ex.axiom(And(n >= 0, n <= mx))
    st.mem = ex.m.store(st.mem, mp, 'mhas', H)
    ex.lib.set_msize(mp, n, st)
    cnt = z3.Int('count')
    ex.axiom(And(cnt >= 0, cnt < (1 << 62)))
    st.mem = ex.m.store(st.mem, this.plus(CNT), 'i64', cnt)
    return this, mp, H, n, mx, cnt, net


def copy_(st, c=None):
    return type(st)(st.cond if c is None else And(st.cond, c), st.mem, dict(st.env))


def val(ex, mp, k, st):
    p = ex.lib.mslot(mp, k).plus(32)
    return ex.m.load(st.mem, p, 'ptr'), ex.m.load(st.mem, p.plus(8), 'i64')


def lookup(ex, b, this, k, st):
    s = copy_(st)
    r = ex.alloc()
    s.mem = ex.m.store(s.mem, r, 'str', k)
    ret = ex.alloc()
    ex.call(b.fn(N + r'LookUp\('), [ret, this, r], s)
    return ex.m.load(s.mem, ret, 'ptr')


def notnull(p):
    return zb(Not(Eq(p.obj, 0)))


def basics(b):
    ex = new_exec(b)
    st = start(ex)
    this, mp, H, n, mx, cnt, net = mk(b, st, ex)
    u, k = z3.Const('url', ex.S), z3.Const('other', ex.S)
    ru = ex.alloc()
    st.mem = ex.m.store(st.mem, ru, 'str', u)
    has = z3.Select(H, u)
    for x in (u, k):
        v, t = val(ex, mp, x, st)
        ex.axiom(z3.Implies(z3.Select(H, x), notnull(v)))       # only items are cached
    ex.axiom(z3.Implies(Or(has, z3.Select(H, k)), n >= 1))
    ex.axiom(z3.Implies(And(has, z3.Select(H, k), u != k), n >= 2))
    iu, ik = lookup(ex, b, this, u, st), lookup(ex, b, this, k, st)
    v, t = val(ex, mp, u, st)
    ex.oblige('LookUp finds what is cached and nothing else', st.cond, And(notnull(iu) == has, z3.Implies(has, ptr_eq(iu, v))))
    und = [N + 'LookUp']
    # Delete
    s = copy_(st)
    r = ex.call(b.fn(N + r'Delete\('), [this, ru], s)
    ex.oblige('Delete says whether there was an entry', s.cond, zb(r) == has)
    ex.oblige('Delete removes the entry', s.cond, Not(notnull(lookup(ex, b, this, u, s))))
    ex.oblige('Delete leaves the others', And(s.cond, u != k), ptr_eq(lookup(ex, b, this, k, s), ik))
    ex.oblige('Delete: one entry less', s.cond, Eq(ex.call(b.fn(N + r'Size\(\) const'), [this], copy_(s)), z3.If(has, n - 1, n)))
    # Save
    OLD = z3.Const('oldest', ex.S)
    called = []

    def ro(ex, nm, a, st):
        '''removes the entry made first, if any (verified: RemoveOldest)'''
        called.append(st.cond)
        h = ex.lib.mhas(mp, st)
        sz = ex.lib.msize(mp, st)
        c = And(st.cond, zi(sz) > 0)
        ex.axiom(z3.Implies(zb(c), z3.Select(h, OLD)))
        st.mem = ex.m.store(st.mem, mp, 'mhas', z3.If(zi(sz) > 0, z3.Store(h, OLD, z3.BoolVal(False)), h))
        ex.lib.set_msize(mp, z3.If(zi(sz) > 0, zi(sz) - 1, zi(sz)), st)
        return zi(sz) > 0
    ex.contracts.append((RX(r'^kmlbase::NetCache<DvItem>::RemoveOldest'), ro))
    item = ex.new_input_obj()
    ri = ex.alloc()
    st.mem = ex.m.store(st.mem, ri, 'ptr', item)
    s = copy_(st)
    r = ex.call(b.fn(N + r'Save\('), [this, ru, ri], s)
    ex.oblige('Save refuses exactly when there is an entry already', s.cond, zb(r) == Not(has))
    ex.oblige('Save: the item is cached', And(s.cond, Not(has)), ptr_eq(lookup(ex, b, this, u, s), item))
    ex.oblige('a refused Save changes nothing', And(s.cond, has), And(ptr_eq(lookup(ex, b, this, u, s), iu), ptr_eq(lookup(ex, b, this, k, s), ik)))
    full = And(Not(has), n == mx)
    ex.oblige('Save: others stay, but for the oldest when the cache is full', And(s.cond, u != k, Not(And(full, k == OLD))), ptr_eq(lookup(ex, b, this, k, s), ik))
    ex.oblige('Save: the oldest goes when the cache is full', And(s.cond, full, k == OLD, u != k), Not(notnull(lookup(ex, b, this, k, s))))
    sz = ex.call(b.fn(N + r'Size\(\) const'), [this], copy_(s))
    ex.oblige('the cache never holds more than its limit', s.cond, zi(sz) <= mx)
    ex.oblige('Save: one entry more, unless full or refused', s.cond, Eq(sz, z3.If(Or(has, full), n, n + 1)))
    ex.oblige('Save: the entry is newer than all before', And(s.cond, Not(has)), And(Eq(val(ex, mp, u, s)[1], cnt), Eq(ex.m.load(s.mem, this.plus(CNT), 'i64'), cnt + 1)))
    ex.oblige('a refused Save makes no entry newer', And(s.cond, has), Eq(val(ex, mp, u, s)[1], t))
    ex.under_contract = [b.m.dem[b.fn(N + x)] for x in (r'LookUp\(', r'Delete\(', r'Save\(', r'Size\(', r'NetCache\(')]
    ex.covers = [st.cond]
    return ex


def fetch(b):
    ex = new_exec(b)
    st = start(ex)
    this, mp, H, n, mx, cnt, net = mk(b, st, ex)
    u = z3.Const('url', ex.S)
    ru = ex.alloc()
    st.mem = ex.m.store(st.mem, ru, 'str', u)
    LK = ex.input_ptr('cached_item', nonnull=False)
    ok, saved = z3.Bool('fetched'), z3.Bool('saved')
    data = z3.Const('data', ex.S)
    log = ex.newlog()

    def lk(ex, nm, a, st):
        '''the cached item or null (verified: LookUp)'''
        ex.oblige('looks up the url asked for', st.cond, And(Eq(ex.m.load(st.mem, a[2], 'str'), u), ptr_eq(a[1], this)))
        st.mem = ex.m.store(st.mem, a[0], 'ptr', LK)

    def net_(ex, nm, a, st):
        '''application code: true and the data, or false'''
        ex.oblige('fetches the url asked for', st.cond, And(Eq(ex.m.load(st.mem, a[1], 'str'), u), ptr_eq(a[0], net)))
        st.mem = ex.m.store(st.mem, a[2], 'str', data)
        log.append(('fetch', st.cond))
        return ok
    item = ex.input_ptr('item', nonnull=False)          # null: the data make no item

    def cr(ex, nm, a, st):
        '''application code: makes an item of the data, or none'''
        ex.oblige('the item is made of the data fetched', st.cond, Eq(ex.m.load(st.mem, a[0], 'str'), data))
        log.append(('create', st.cond))
        return item

    def sv(ex, nm, a, st):
        '''caches the item (verified: Save)'''
        ex.oblige('the item is cached under its url', st.cond, And(Eq(ex.m.load(st.mem, a[1], 'str'), u), ptr_eq(ex.m.load(st.mem, a[2], 'ptr'), item), ptr_eq(a[0], this)))
        log.append(('save', st.cond))
        return saved
    ex.contracts += [(RX(r'^kmlbase::NetCache<DvItem>::LookUp'), lk), (RX(r'^DvItem::CreateFromString'), cr), (RX(r'^kmlbase::NetCache<DvItem>::Save'), sv)]
    ex.vcontracts['FetchUrl'] = net_
    ret = ex.alloc()
    f = b.fn(N + r'Fetch\(')
    ex.call(f, [ret, this, ru], st)
    r = ex.m.load(st.mem, ret, 'ptr')
    c = notnull(LK)
    ex.oblige('Fetch gives the cached item when there is one', And(st.cond, c), ptr_eq(r, LK))
    ex.oblige('Fetch gives the item made of the data fetched otherwise', And(st.cond, Not(c), ok, notnull(item), saved), ptr_eq(r, item))
    ex.oblige('Fetch gives nothing when the fetch fails', And(st.cond, Not(c), Not(And(ok, notnull(item), saved))), Not(notnull(r)))
    for w, cond in (('fetch', Not(c)), ('create', And(Not(c), ok)), ('save', And(Not(c), ok, notnull(item)))):
        l = [x for k, x in log if k == w]
        ex.oblige('%s happens when needed' % w, And(st.cond, cond), Or(*l))
        for x in l:
            ex.oblige('%s happens only when needed' % w, x, cond)
        ex.oblige('%s happens at most once' % w, st.cond, len(l) <= 1)
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def oldest(b):
    ex = new_exec(b)
    st = start(ex)
    this, mp, H, n, mx, cnt, net = mk(b, st, ex)
    q = ex.lib.seq_view(mp, n)
    st0 = copy_(st)

    def time(i):
        return zi(ex.m.load(st0.mem, Ptr(q.nodes.obj, ex.mul_c(i, ex.lib.STRIDE)).plus(40), 'i64'))
    j = z3.Int('j')           # any entry
    ex.axiom(And(j >= 0, j < n))
    ex.axiom(And(time(j) >= 0, time(j) < (1 << 62)))

    def gen(ex, rec):
        ints = []
        for nm, g, w in rec.ints:
            try:
                g(rec.hdr)
            except Unsupported:
                continue
            ints.append((nm, g, w))
        for nm, g, w in ints:
            ex.add_cand(rec, nm + ' within the entries', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) <= n))
            ex.add_cand(rec, nm + ' is an entry', lambda t, g=g: And(zi(g(t)) >= 0, zi(g(t)) < n))
            v = g(rec.hdr)
            if is_z(v):
                ex.axiom(And(time(v) >= 0, time(v) < (1 << 62)))
            for nm2, g2, w2 in ints:
                if nm2 != nm:
                    ex.add_cand(rec, '%s is no newer than any entry before %s' % (nm, nm2), lambda t, g=g, g2=g2: z3.Implies(j < zi(g2(t)), time(g(t)) <= time(j)))
    ex.inv_gens.append(gen)
    ex.axiom(And(time(0) >= 0, time(0) < (1 << 62)))
    f = b.fn(N + r'RemoveOldest\(')
    r = ex.call(f, [this], st)
    ex.oblige('RemoveOldest says whether there was an entry', st.cond, zb(r) == (n > 0))
    er = q.erased
    ex.oblige('RemoveOldest removes one entry when there is one', And(st.cond, n > 0), And(len(er) == 1, Or(*[c for c, p in er])))
    for c, p in er:
        ex.oblige('RemoveOldest removes nothing from an empty cache', c, n > 0)
        ex.oblige('the entry removed is in the cache', c, And(Eq(p.obj, q.it.obj), zi(p.off) >= 0, zi(p.off) < n))
        ex.oblige('the entry removed is no newer than any other', c, time(p.off) <= time(j))
    ex.under_contract = [b.m.dem[f]]
    ex.covers = [st.cond]
    return ex


def units(b):
    return [Unit('LookUp, Delete, Save', lambda: basics(b)), Unit('Fetch', lambda: fetch(b)), Unit('RemoveOldest', lambda: oldest(b))]
