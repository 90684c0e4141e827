"""C05: rf.util.IterMultipleComponents"""
from dv.contracts.lib import *

CONTRACTS, contract = registry()
LIB = ['a header value enters by its text (equal texts are equal values)']


class Table(DDict):
    """dict with one known entry at most and any number of other ones"""

    def items(self):
        return DList([self.other[0]] + list(zip(self.ks, self.vs)) + [self.other[1]])

    def values(self):
        return DList([Gap('values1', lambda: self.other[0].fresh()[1])] + list(self.vs) +
                     [Gap('values2', lambda: self.other[1].fresh()[1])])

    def keys(self):
        return DList([Gap('keys1', lambda: self.other[0].fresh()[0])] + list(self.ks) +
                     [Gap('keys2', lambda: self.other[1].fresh()[0])])

    def __iter__(self):
        raise core.Unsupported('loop over a table')
    __len__ = length = __iter__

    def __getitem__(self, key):
        for k, v in zip(self.ks, self.vs):
            if k is key:
                return v
        raise core.Unsupported('entry of a table')

    def __bool__(self):
        raise core.Unsupported('emptiness of a table')


HEADERS = (None, 'onset', 'event_id', 'slowness')


@contract('rf.util.IterMultipleComponents.__init__, rf.util.IterMultipleComponents.__len__, '
          'rf.util.IterMultipleComponents.__iter__',
          expect=['first', 'member', 'order', 'other', 'delivered', 'length', 'type', 'input', 'once'],
          cover=['first', 'later', 'other-seen', 'other-new', 'delivered', 'left-out', 'none', 'iteration', 'rest'],
          max_paths=9000, assumptions=LIB)
def groups(E, load):
    """loop invariant for an arbitrary key K (code without component letter, text of the header): there is an entry for K if
    and only if a trace with this key was seen, and its stream has exactly these traces in their order; afterwards the
    stream of K is delivered once if its length is allowed and not otherwise"""
    mod, rs = load('rf.util'), load('rf.rfstream')
    header = HEADERS[E.choose(4)]
    kind = E.choose(4)
    n = (None, E.int('n', 1), (E.int('n1', 1),), (E.int('n1', 1), E.int('n2', 1)))[kind]
    keys = ('onset', 'event_id', 'slowness')
    F = trace(E, rs.RFTrace, 'F', present=keys, unknown=())
    inputs = []

    def make(base):
        t = trace(E, rs.RFTrace, base, present=keys, unknown=())
        inputs.append((t, Snap(t)))
        return t

    def code(t):
        return t.id[:-1], stubs.b_str(t.stats[header]) if header is not None else None
    inputs.append((F, Snap(F)))
    hits = []

    def spoiled():
        for t, sn in inputs:
            E.prove('input', AND(sn.headers(t.stats), sn.samples(t.data), t.log == []))

    def table(loc):
        ts = [v for v in loc.values() if isinstance(v, DDict) and not v.ks]
        need(len({id(v) for v in ts}) == 1, 'one empty table')
        return ts[0]

    def entries(tab, key):
        for k, v in zip(tab.ks, tab.vs):
            need(isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], (str, SStr)) and isinstance(v, rs.RFStream),
                 'table from code and header to stream')
        return [(k, v) for k, v in zip(tab.ks, tab.vs) if bool(veq(k, key))]

    def seen(key):
        """stream of the traces with this key seen so far: first and any number of others"""
        return stream(rs.RFStream, [F, traces(E, rs.RFTrace, 'members', present=keys, unknown=())])

    def same_parts(s, ps):
        q = parts_of(s.traces)
        return len(q) == len(ps) and all(x is y for x, y in zip(q, ps))
    key = code(F)

    def loop(loc, it, st):
        tab = table(loc)
        need(it is s or it is s.traces, 'loop over the stream')
        mode = E.choose(4)
        if mode == 0:
            # no trace with this key
            done(tab, None)
            E.cover('none')
            return
        if mode == 1:
            # the first one
            yield F
            es = entries(tab, key)
            E.prove('first', len(es) == 1 and len(tab.ks) == 1)
            T = es[0][1]
            E.prove('first', same_parts(T, [F]))
            E.prove('type', type(T) is rs.RFStream)
            spoiled()
            E.cover('first')
            if E.choose(2):
                done(tab, T)
                return
            raise core.PathEnd()
        T = seen(key)
        before = list(parts_of(T.traces))
        if mode == 2:
            # a later one
            tab._put(table_key(tab, key), T)
            if E.choose(2):
                done(tab, T)
                return
            x = make('x')
            E.assume(veq(code(x), key))
            yield x
            es = entries(tab, key)
            E.prove('member', len(es) == 1 and len(tab.ks) == 1 and es[0][1] is T)
            E.prove('order', same_parts(T, before + [x]))
            spoiled()
            E.cover('later')
            raise core.PathEnd()
        # a trace with another key, seen before or not
        put, known = E.choose(2), E.choose(2)
        x = make('x')
        E.assume(NOT(SBool(zb(veq(code(x), key)))))
        if put:
            tab._put(table_key(tab, key), T)
        if known:
            U = stream(rs.RFStream, [traces(E, rs.RFTrace, 'others', present=keys, unknown=())])
            tab._put(table_key(tab, code(x)), U)
        yield x
        es = entries(tab, key)
        E.prove('other', len(es) == put and (not put or es[0][1] is T and same_parts(T, before)))
        E.prove('other', len(tab.ks) == put + 1)
        spoiled()
        E.cover('other-seen' if known else 'other-new')
        raise core.PathEnd()

    def table_key(tab, key):
        return key

    def done(tab, T):
        def fresh():
            return ((SStr.word('code'), SStr.word('value') if header is not None else None),
                    stream(rs.RFStream, [traces(E, rs.RFTrace, 'others', present=keys, unknown=())]))
        tab.__class__ = Table
        tab.other = [Gap('entries1', fresh), Gap('entries2', fresh)]
        hits.append(T)
    s = stream(rs.RFStream, [traces(E, rs.RFTrace, 'input', present=keys, unknown=())])
    parts = list(parts_of(s.traces))
    E.for_specs = {'rf.util.IterMultipleComponents.__init__:0': loop}

    def permutation(it, key=None, reverse=False):
        """some order of the elements; this one is as good as any"""
        need(isinstance(it, DList), 'sorted')
        return it
    mod.sorted = permutation
    # the default of a defaultdict
    args = {}
    if header is not None or E.choose(2):
        args['key'] = header
    if n is not None:
        args['number_components'] = n
    o = mod.IterMultipleComponents(s, **args)
    need(len(hits) == 1, 'one loop')
    T = hits[0]
    E.prove('input', same_parts(s, parts))
    if T is None:
        allowed = False
    else:
        m = stubs.b_len(T)
        allowed = True if n is None else veq(m, n) if kind == 1 else OR(*[veq(m, x) for x in n])
    own = [t for t in parts_of(o.substreams) if not isinstance(t, Gap)]
    need(all(isinstance(t, rs.RFStream) for t in own), 'list of streams')
    E.prove('delivered', SBool(zb(allowed)) if len(own) else NOT(SBool(zb(allowed))))
    E.prove('once', len(own) <= 1 and (not own or own[0] is T))
    E.cover('delivered' if own else 'left-out')
    E.prove('length', veq(type(o).__len__(o), o.substreams.length()))
    got = []
    for x in o:
        E.prove('type', type(x) is rs.RFStream)
        if x is T:
            got.append(x)
            E.cover('iteration')
        else:
            k = stubs.b_len(x)
            E.prove('delivered', True if n is None else veq(k, n) if kind == 1 else OR(*[veq(k, y) for y in n]))
            E.cover('rest')
    E.prove('once', len(got) == len(own))
    spoiled()
