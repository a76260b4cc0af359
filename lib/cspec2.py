"""Wire formats and scenarios, part 2: strings, octet and bit strings, bit-level operations, object identifiers, reals,
deferred determinants, comparison functions."""
from cspec import *

def nbits(rng): return rng.bit_length()
def chars(n): return [fresh_bits("c%d" % i, 8) for i in range(n)]
def bits_of(c): return list(reversed(c)) if isinstance(c, tuple) else lit_bits(c, 8)
def bounded(lo, hi):
    def pre(F, cs):
        for c in cs:
            if isinstance(c, tuple): F.bound(c, 8, False, lo, hi)
    return pre

def strcells(cs, mx):
    """char[max+1]: the characters, NUL, then unknown"""
    n = len(cs)
    c = list(cs) + ([0] if n < mx + 1 else [])
    while len(c) < mx + 1: c.append(fresh_bits("g", 8))
    return c

def wrap_big(fn, steps):
    def f(c, *a, **k):
        old = c.E.max_steps
        c.E.max_steps = steps
        try: return fn(c, *a, **k)
        finally: c.E.max_steps = old
    f.heavy = True
    return f

SETS = [tuple(b"A"), tuple(b"01"), tuple(b"AC3"), tuple(b"abcde"), tuple(b"0123456789")]
ALPHA26 = tuple(range(65, 91))
IA5 = tuple(range(128))

# ============================================================ character strings
def strings(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    M = (1 << W) - 1
    sizes = [(n, mx) for mx in ((0, 1, 2, 3, 5, 8) if D else (0, 1, 2, 4)) for n in range(mx + 1)]
    if enc_:
        for n, mx in sizes:
            mk = (lambda n=n: chars(n))
            pos = bounded(1, 255)
            S = lambda cs, mx=mx: Data(strcells(cs, mx), "string")
            content = lambda cs: [b for c in cs for b in bits_of(c)]
            if n == mx:
                g.e("Acn_Enc_String_Ascii_FixSize", mk, content, (lambda cs, mx=mx, S=S: [mx, S(cs)]), 3, label="%d characters" % n)
            g.e("Acn_Enc_String_Ascii_External_Field_Determinant", mk, content, (lambda cs, mx=mx, S=S: [mx, S(cs)]), 3, label="%d of %d characters" % (n, mx), pre=pos)
            for t in (0, 13, 255):
                if t and n != mx and n != 1: continue
                g.e("Acn_Enc_String_Ascii_Null_Terminated", mk, (lambda cs, t=t: content(cs) + lit_bits(t, 8)), (lambda cs, mx=mx, S=S, t=t: [mx, t, S(cs)]), 2, label="%d of %d characters" % (n, mx), pre=pos)
            for z in ((0,), (13, 10), (0, 1, 0), tuple(range(1, 11))):
                g.e("Acn_Enc_String_Ascii_Null_Terminated_mult", mk, (lambda cs, z=z: content(cs) + [b for y in z for b in lit_bits(y, 8)]),
                    (lambda cs, mx=mx, S=S, z=z: [mx, Data(list(z), "terminator"), len(z), S(cs)]), 2, label="%d of %d characters, terminator of %d" % (n, mx, len(z)), pre=pos)
            for mn in sorted({0, min(1, mx), mx // 2, mx}):
                if mn > n: continue
                g.e("Acn_Enc_String_Ascii_Internal_Field_Determinant", mk, (lambda cs, mn=mn, mx=mx: lit_bits(len(cs) - mn, nbits(mx - mn)) + content(cs)),
                    (lambda cs, mx=mx, mn=mn, S=S: [mx, mn, S(cs)]), 2, label="%d of %d..%d characters" % (n, mn, mx), pre=pos)
        # longer strings: concrete characters, length field of more than a byte
        for n, mn, mx in ((100, 0, 127), (128, 0, 128), (300, 1, 300), (7, 0, 65535)):
            cs = [33 + (7 * i) % 90 for i in range(n)]
            cells = cs + [0] + [None] * (min(mx, n + 3) - n)
            g.e("Acn_Enc_String_Ascii_Internal_Field_Determinant", (lambda cs=cs: cs), (lambda cs, mn=mn, mx=mx: lit_bits(len(cs) - mn, nbits(mx - mn)) + [b for c in cs for b in bits_of(c)]),
                (lambda cs, mx=mx, mn=mn, cells=cells: [mx, mn, Data(cells, "string")]), 1, label="%d of %d..%d characters" % (n, mn, mx))
        # alphabets
        def idx(F, cs, st):
            k = nbits(len(st) - 1); out = []
            for c in cs:
                for i, a in enumerate(st):
                    if isinstance(c, int):
                        if c == a: out += lit_bits(i, k); break
                    elif decide(F, F.eq(F.N(simp(c)), a, 8)): out += lit_bits(i, k); break
                else: raise Infeasible()
            return out
        for st in SETS + [ALPHA26] + ([tuple(range(32, 127))] if D else []):
            for n, mx in ((0, 0), (1, 1), (2, 2), (1, 3), (3, 3), (0, 2)) + (((4, 4), (2, 6)) if D else ()):
                sym = 1 if len(st) > 5 else 2 if n < 3 else 1
                def mk(n=n, sym=sym, st=st): return [fresh_bits("c", 8) if i < sym else st[(i * 5 + 1) % len(st)] for i in range(n)]
                k = nbits(len(st) - 1)
                pre = bounded(min(st), max(st))
                dom = (lambda F, cs, st=st: idx(F, cs, st))
                A = lambda st=st: Data(list(st), "alphabet")
                S = lambda cs, mx=mx: Data(strcells(cs, mx), "string")
                for p in g.pos(2):
                    if n == mx: g.add("Acn_Enc_String_CharIndex_FixSize", enc_str, "Acn_Enc_String_CharIndex_FixSize", mk, pre, (lambda F, cs, dom=dom: dom(F, cs)), n * k, (lambda cs, mx=mx, A=A, st=st, S=S: [mx, A(), len(st), S(cs)]), p, "%d of %d symbols" % (n, len(st)), st)
                    g.add("Acn_Enc_String_CharIndex_External_Field_Determinant", enc_str, "Acn_Enc_String_CharIndex_External_Field_Determinant", mk, pre, (lambda F, cs, dom=dom: dom(F, cs)), n * k, (lambda cs, mx=mx, A=A, st=st, S=S: [mx, A(), len(st), S(cs)]), p, "%d of %d symbols" % (n, len(st)), st)
                    for mn in sorted({0, n}):
                        kl = nbits(mx - mn)
                        g.add("Acn_Enc_String_CharIndex_Internal_Field_Determinant", enc_str, "Acn_Enc_String_CharIndex_Internal_Field_Determinant", mk, pre, (lambda F, cs, dom=dom, mn=mn, kl=kl: lit_bits(len(cs) - mn, kl) + dom(F, cs)), kl + n * k,
                              (lambda cs, mx=mx, A=A, st=st, S=S, mn=mn: [mx, A(), len(st), mn, S(cs)]), p, "%d of %d symbols, size %d..%d" % (n, len(st), mn, mx), st)
        for n, mx in ((0, 0), (1, 1), (2, 3)):
            def mk(n=n): return [fresh_bits("c", 8) if i == 0 else 65 + i for i in range(n)]
            S = lambda cs, mx=mx: Data(strcells(cs, mx), "string")
            direct = lambda cs: [b for c in cs for b in bits_of(c)[1:]]
            pre = bounded(1, 127)
            g.e("Acn_Enc_IA5String_CharIndex_External_Field_Determinant", mk, direct, (lambda cs, mx=mx, S=S: [mx, S(cs)]), 1, label="%d of %d" % (n, mx), pre=pre)
            g.e("Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant", mk, (lambda cs, mx=mx: lit_bits(len(cs), nbits(mx)) + direct(cs)), (lambda cs, mx=mx, S=S: [mx, 0, S(cs)]), 1, label="%d of %d" % (n, mx), pre=pre)
    if dec_:
        def chars_in(F, rd, n, mx):
            s = [rd.u(8, 8) for _ in range(n)]
            return s + [0] + [None] * (mx - n)
        for mx in ((0, 1, 2, 3, 5) if D else (0, 1, 2, 4)):
            out = [("s", mx + 1)]
            g.d("Acn_Dec_String_Ascii_FixSize", out, (lambda F, rd, mx=mx: {"s": chars_in(F, rd, mx, mx)}), (lambda s, mx=mx: [mx, s]), 8 * mx, 3, "%d characters" % mx)
            for ext in list(range(mx + 3)) + [mx + 9, 1 << 20, (1 << (g.W - 1)) - 1]:
                n = min(ext, mx)
                g.d("Acn_Dec_String_Ascii_External_Field_Determinant", out, (lambda F, rd, n=n, mx=mx: {"s": chars_in(F, rd, n, mx)}), (lambda s, mx=mx, ext=ext: [mx, ext, s]), 8 * n, 2, "%d of %d characters" % (ext, mx), cuts="few")
            for mn in sorted({0, min(1, mx), mx // 2, mx}):
                def spec(F, rd, mn=mn, mx=mx):
                    k = nbits(mx - mn)
                    n = (conc(F, rd.u(k, 32), 32) if k else 0) + mn
                    if n > mx: raise SpecFail("length above the maximum")
                    return {"s": chars_in(F, rd, n, mx)}
                g.d("Acn_Dec_String_Ascii_Internal_Field_Determinant", out, spec, (lambda s, mx=mx, mn=mn: [mx, mn, s]), nbits(mx - mn) + 8 * mx, 3, "%d..%d characters" % (mn, mx))
            for t in (0, 65, 200):
                def spec(F, rd, mx=mx, t=t):
                    s = []
                    while True:
                        c = rd.u(8, 8)
                        if decide(F, F.eq(c, t, 8)): return {"s": s + [0] + [None] * (mx - len(s))}
                        if len(s) == mx: raise SpecFail("no terminator within the maximum")
                        s.append(c)
                g.d("Acn_Dec_String_Ascii_Null_Terminated", out, spec, (lambda s, mx=mx, t=t: [mx, t, s]), 8 * (mx + 1), 3, "at most %d characters, terminator %d" % (mx, t), extra=1)
            for z in ((0,), (13, 10), (0, 0), (1, 1, 2)) + ((tuple(range(1, 11)),) if mx < 3 else ()):
                def spec(F, rd, mx=mx, z=z):
                    s = []
                    while True:
                        if rd.left() < 8 * len(z): raise SpecFail("truncated")
                        if all(decide(F, F.eq(simp(tuple(reversed(rd.b[rd.p + 8 * i:rd.p + 8 * i + 8]))), z[i], 8)) for i in range(len(z))):
                            rd.take(8 * len(z)); return {"s": s + [0] + [None] * (mx - len(s))}
                        if len(s) == mx: raise SpecFail("no terminator within the maximum")
                        s.append(rd.u(8, 8))
                g.d("Acn_Dec_String_Ascii_Null_Terminated_mult", out, spec, (lambda s, mx=mx, z=z: [mx, Data(list(z), "terminator"), len(z), s]), 8 * (mx + len(z)), 2, "at most %d characters, terminator %r" % (mx, z), extra=1)
        for n, mn, mx in ((100, 0, 127), (300, 1, 300), (3, 0, 200)):
            def spec(F, rd, mn=mn, mx=mx):
                m_ = conc(F, rd.u(nbits(mx - mn), 32), 32) + mn
                if m_ > mx: raise SpecFail("length above the maximum")
                return {"s": chars_in(F, rd, m_, mx)}
            k = nbits(mx - mn)
            g.d("Acn_Dec_String_Ascii_Internal_Field_Determinant", [("s", mx + 1)], spec, (lambda s, mx=mx, mn=mn: [mx, mn, s]), k + 8 * n, 1, "%d of %d..%d characters" % (n, mn, mx), cells=(lambda p, nb, n=n, mn=mn, k=k: place(p, nb, lit_bits(n - mn, k))), cuts="few", lead=False)
        def indices(F, rd, n, st, mx):
            k = nbits(len(st) - 1); s = []
            for _ in range(n):
                i = conc(F, rd.u(k, 32), 32) if k else 0
                if i >= len(st): raise SpecFail("symbol outside the alphabet")
                s.append(st[i])
            return s + [0] + [None] * (mx - n)
        for st in SETS + [ALPHA26] + ([tuple(range(32, 127))] if D else []):
            k = nbits(len(st) - 1)
            for mx in (0, 1, 2) if len(st) < 9 else (1,):
                out = [("s", mx + 1)]
                A = lambda st=st: Data(list(st), "alphabet")
                g.d("Acn_Dec_String_CharIndex_FixSize", out, (lambda F, rd, mx=mx, st=st: {"s": indices(F, rd, mx, st, mx)}), (lambda s, mx=mx, A=A, st=st: [mx, A(), len(st), s]), k * mx, 2, "%d of %d symbols" % (mx, len(st)))
                for ext in list(range(mx + 3)) + [mx + 9, (1 << (g.W - 1)) - 1]:
                    n = min(ext, mx)
                    g.d("Acn_Dec_String_CharIndex_External_Field_Determinant", out, (lambda F, rd, n=n, mx=mx, st=st: {"s": indices(F, rd, n, st, mx)}), (lambda s, mx=mx, A=A, st=st, ext=ext: [mx, A(), len(st), ext, s]), k * n, 1, "%d of %d symbols" % (ext, len(st)))
                for mn in range(mx + 1):
                    def spec(F, rd, mn=mn, mx=mx, st=st):
                        kk = nbits(mx - mn)
                        n = (conc(F, rd.u(kk, 32), 32) if kk else 0) + mn
                        if n > mx: raise SpecFail("length above the maximum")
                        return {"s": indices(F, rd, n, st, mx)}
                    g.d("Acn_Dec_String_CharIndex_Internal_Field_Determinant", out, spec, (lambda s, mx=mx, A=A, st=st, mn=mn: [mx, A(), len(st), mn, s]), nbits(mx - mn) + k * mx, 2, "%d..%d of %d symbols" % (mn, mx, len(st)))
        for mx, ext in ((1, 1), (1, 2), (3, 0), (1, 3), (2, 11)):
            n = min(ext, mx)
            g.d("Acn_Dec_IA5String_CharIndex_External_Field_Determinant", [("s", mx + 1)], (lambda F, rd, n=n, mx=mx: {"s": indices(F, rd, n, IA5, mx)}), (lambda s, mx=mx, ext=ext: [mx, ext, s]), 7 * n, 2, "%d of %d" % (ext, mx))
        def spi(F, rd):
            n = conc(F, rd.u(2, 32), 32)
            if n > 2: raise SpecFail("length above the maximum")
            return {"s": indices(F, rd, n, IA5, 2)}
        g.d("Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant", [("s", 3)], spi, (lambda s: [2, 0, s]), 16, 2, "0..2", cells=(lambda p, nb: place(p, nb, [0, 1])), lead=False)
        g.d("Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant", [("s", 3)], spi, (lambda s: [2, 0, s]), 16, 2, "0..2", cells=(lambda p, nb: place(p, nb, [1, 1])), lead=False)
        g.d("Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant", [("s", 3)], spi, (lambda s: [2, 0, s]), 16, 1, "0..2", cells=(lambda p, nb: place(p, nb, [1, 0] + lit_bits(77, 7))), lead=False)

    long_strings(g, enc_, dec_)

def long_strings(g, enc_, dec_):
    """longer contents: nothing changes with the number of items (a word at a time, a block at a time)"""
    content = lambda cs: [b for c in cs for b in bits_of(c)]
    pos = bounded(1, 255)
    AL = [tuple(range(65, 65 + k)) for k in (4, 16)] + [tuple(range(33, 33 + 64))]
    def place1(p, nb, fl): return place(p, nb, fl)
    def indices(F, rd, n, st, mx):
        k = nbits(len(st) - 1); s = []
        for _ in range(n):
            i = conc(F, rd.u(k, 32), 32) if k else 0
            if i >= len(st): raise SpecFail("symbol outside the alphabet")
            s.append(st[i])
        return s + [0] + [None] * (mx - n)
    for n, mx in ((8, 8), (9, 9), (17, 17), (16, 33), (33, 40), (70, 70), (260, 260), (260, 300)):
        conc_ = n > 40
        if enc_:
            mk = (lambda n=n: chars(n)) if not conc_ else (lambda n=n: [33 + (7 * i) % 90 for i in range(n)])
            S = lambda cs, mx=mx: Data(strcells(cs, mx), "string")
            lb = "%d of %d characters" % (n, mx); kw = {} if conc_ else dict(pre=pos)
            if n == mx: g.e("Acn_Enc_String_Ascii_FixSize", mk, content, (lambda cs, mx=mx, S=S: [mx, S(cs)]), 1, label=lb)
            g.e("Acn_Enc_String_Ascii_External_Field_Determinant", mk, content, (lambda cs, mx=mx, S=S: [mx, S(cs)]), 1, label=lb, **kw)
            g.e("Acn_Enc_String_Ascii_Null_Terminated", mk, (lambda cs: content(cs) + [0] * 8), (lambda cs, mx=mx, S=S: [mx, 0, S(cs)]), 1, label=lb, **kw)
            z = (13, 10)
            g.e("Acn_Enc_String_Ascii_Null_Terminated_mult", mk, (lambda cs, z=z: content(cs) + [b for y in z for b in lit_bits(y, 8)]), (lambda cs, mx=mx, S=S, z=z: [mx, Data(list(z), "terminator"), len(z), S(cs)]), 1, label=lb, **kw)
            for st in AL:
                k = nbits(len(st) - 1)
                cs0 = [st[(7 * i + i // 5) % len(st)] for i in range(n)]
                fl = [b for c in cs0 for b in lit_bits(st.index(c), k)]
                A = lambda st=st: Data(list(st), "alphabet")
                if n == mx: g.e("Acn_Enc_String_CharIndex_FixSize", (lambda cs0=cs0: cs0), (lambda cs, fl=fl: fl), (lambda cs, mx=mx, A=A, st=st, S=S: [mx, A(), len(st), S(cs)]), 1, label=lb + " of %d symbols" % len(st))
                g.e("Acn_Enc_String_CharIndex_External_Field_Determinant", (lambda cs0=cs0: cs0), (lambda cs, fl=fl: fl), (lambda cs, mx=mx, A=A, st=st, S=S: [mx, A(), len(st), S(cs)]), 1, label=lb + " of %d symbols" % len(st))
                g.e("Acn_Enc_String_CharIndex_Internal_Field_Determinant", (lambda cs0=cs0: cs0), (lambda cs, fl=fl, mx=mx: lit_bits(len(cs), nbits(mx)) + fl), (lambda cs, mx=mx, A=A, st=st, S=S: [mx, A(), len(st), 0, S(cs)]), 1, label=lb + " of %d symbols" % len(st))
            cs0 = [33 + (7 * i) % 90 for i in range(min(n, 70))]        # the search in the alphabet makes long ones expensive
            d7 = [b for c in cs0 for b in lit_bits(c, 7)]
            g.e("Acn_Enc_IA5String_CharIndex_External_Field_Determinant", (lambda cs0=cs0: cs0), (lambda cs, d7=d7: d7), (lambda cs, mx=mx, S=S: [mx, S(cs)]), 1, label=lb)
            g.e("Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant", (lambda cs0=cs0: cs0), (lambda cs, d7=d7, mx=mx: lit_bits(len(cs), nbits(mx)) + d7), (lambda cs, mx=mx, S=S: [mx, 0, S(cs)]), 1, label=lb)
        if dec_:
            out = [("s", mx + 1)]; lb = "%d of %d characters" % (n, mx)
            rdc = lambda F, rd, n, mx: {"s": [rd.u(8, 8) for _ in range(n)] + [0] + [None] * (mx - n)}
            cs0 = [33 + (7 * i) % 90 for i in range(n)]
            if n == mx: g.d("Acn_Dec_String_Ascii_FixSize", out, (lambda F, rd, n=n, mx=mx: rdc(F, rd, n, mx)), (lambda s, mx=mx: [mx, s]), 8 * n, 1, lb, cuts="few")
            g.d("Acn_Dec_String_Ascii_External_Field_Determinant", out, (lambda F, rd, n=n, mx=mx: rdc(F, rd, n, mx)), (lambda s, mx=mx, n=n: [mx, n, s]), 8 * n, 1, lb, cuts="few")
            for z in ((0,), (13, 10)):
                def spec(F, rd, mx=mx, z=z):
                    s = []
                    while True:
                        if rd.left() < 8 * len(z): raise SpecFail("truncated")
                        if all(decide(F, F.eq(simp(tuple(reversed(rd.b[rd.p + 8 * i:rd.p + 8 * i + 8]))), z[i], 8)) for i in range(len(z))):
                            rd.take(8 * len(z)); return {"s": s + [0] + [None] * (mx - len(s))}
                        if len(s) == mx: raise SpecFail("no terminator within the maximum")
                        s.append(rd.u(8, 8))
                fl = [b for c in cs0 for b in lit_bits(c, 8)] + [b for y in z for b in lit_bits(y, 8)]
                for cells in ((lambda p, nb, fl=fl: place(p, nb, fl)),):
                    g.d("Acn_Dec_String_Ascii_Null_Terminated_mult", out, spec, (lambda s, mx=mx, z=z: [mx, Data(list(z), "terminator"), len(z), s]), 8 * (n + len(z)), 1, lb + ", terminator %r" % (z,), cells=cells, cuts="few", lead=False)
                    if len(z) == 1: g.d("Acn_Dec_String_Ascii_Null_Terminated", out, spec, (lambda s, mx=mx: [mx, 0, s]), 8 * (n + 1), 1, lb, cells=cells, cuts="few", lead=False)
            for st in AL:
                k = nbits(len(st) - 1)
                ix = [(7 * i + i // 5) % len(st) for i in range(n)]
                fl = [b for i in ix for b in lit_bits(i, k)]
                A = lambda st=st: Data(list(st), "alphabet")
                kw = dict(cells=(lambda p, nb, fl=fl: place(p, nb, fl)), cuts="few", lead=False)
                if n == mx: g.d("Acn_Dec_String_CharIndex_FixSize", out, (lambda F, rd, n=n, mx=mx, st=st: {"s": indices(F, rd, n, st, mx)}), (lambda s, mx=mx, A=A, st=st: [mx, A(), len(st), s]), k * n, 1, lb + " of %d symbols" % len(st), **kw)
                g.d("Acn_Dec_String_CharIndex_External_Field_Determinant", out, (lambda F, rd, n=n, mx=mx, st=st: {"s": indices(F, rd, n, st, mx)}), (lambda s, mx=mx, A=A, st=st, n=n: [mx, A(), len(st), n, s]), k * n, 1, lb + " of %d symbols" % len(st), **kw)
                def spec(F, rd, mx=mx, st=st):
                    m_ = conc(F, rd.u(nbits(mx), 32), 32)
                    if m_ > mx: raise SpecFail("length above the maximum")
                    return {"s": indices(F, rd, m_, st, mx)}
                fl2 = lit_bits(n, nbits(mx)) + fl
                g.d("Acn_Dec_String_CharIndex_Internal_Field_Determinant", out, spec, (lambda s, mx=mx, A=A, st=st: [mx, A(), len(st), 0, s]), len(fl2), 1, lb + " of %d symbols" % len(st), cells=(lambda p, nb, fl=fl2: place(p, nb, fl)), cuts="few", lead=False)
            fl = [b for c in cs0 for b in lit_bits(c, 7)]
            g.d("Acn_Dec_IA5String_CharIndex_External_Field_Determinant", out, (lambda F, rd, n=n, mx=mx: {"s": indices(F, rd, n, IA5, mx)}), (lambda s, mx=mx, n=n: [mx, n, s]), 7 * n, 1, lb, cells=(lambda p, nb, fl=fl: place(p, nb, fl)), cuts="few", lead=False)

def enc_str(c, fn, mk, pre, ex, size, args, pos, label, st):
    cs = mk()
    def setup(m): pre(m.st.F, cs)
    return enc(c, fn, lambda m, bs, _: [bs] + [realise(m, a) for a in args(cs)], Exp(size, lambda F: ex(F, cs)), pos, "%s at bit %d" % (label, pos), setup=setup)

# ============================================================ octet strings and bit strings
def fragments(n):
    """(header bits, items) of the fragmented form of n items"""
    r = []
    while n >= 0x4000:
        k = min(n // 0x4000, 4)
        r.append((lit_bits(0xC0 | k, 8), k * 0x4000)); n -= k * 0x4000
    r.append((lit_bits(n, 8) if n <= 0x7F else [1] + lit_bits(n, 15), n))
    return r

def pattern(n): return [(i * 37 + (i >> 8) * 11 + 5) & 0xFF for i in range(n)]

def bounded_len(F, rd, mn, mx):
    k = nbits(mx - mn)
    n = (conc(F, rd.u(k, 32), 32) if k else 0) + mn
    if n > mx: raise SpecFail("length above the maximum")
    return n

def frag_len(F, rd, mn, mx, unit, take):
    tot = 0
    while True:
        h = conc(F, rd.u(8, 32), 32)
        if h & 0xC0 == 0xC0:
            k = h & 0x3F
            if not 1 <= k <= 4: raise SpecFail("invalid fragment header")
            n = k * 0x4000
        elif h & 0x80: n = (h & 0x7F) << 8 | conc(F, rd.u(8, 32), 32)
        else: n = h
        if tot + n > mx: raise SpecFail("length above the maximum")
        take(n); tot += n
        if h & 0xC0 != 0xC0: break
    if tot < mn: raise SpecFail("length below the minimum")
    return tot

def octets(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    content = lambda cs: [b for c in cs for b in bits_of(c)]
    if enc_:
        for n in ((0, 1, 2, 3, 4, 7) if D else (0, 1, 2, 3)):
            mk = lambda n=n: chars(n)
            S = lambda cs: Data(cs if cs else [], "octets")
            for f in ("BitStream_AppendByteArray", "BitStream_EncodeOctetString_no_length"):
                g.e(f, mk, content, (lambda cs, S=S: [S(cs), len(cs)]), 8, retflag=1, label="%d octets" % n)
            for mn, mx in ((n, n), (0, max(n, 1)), (0, 255), (n, n + 5), (0, 65535), (1, 300)):
                if mn > n: continue
                g.e("BitStream_EncodeOctetString", mk, (lambda cs, mn=mn, mx=mx: lit_bits(len(cs) - mn, nbits(mx - mn)) + content(cs)), (lambda cs, S=S, mn=mn, mx=mx: [S(cs), len(cs), mn, mx]), 2, retflag=1, label="%d of %d..%d octets" % (n, mn, mx))
            g.e("BitStream_EncodeOctetString", mk, (lambda cs: lit_bits(len(cs), 8) + content(cs)), (lambda cs, S=S: [S(cs), len(cs), 0, 65536]), 4, retflag=1, label="%d octets, fragmented form" % n)
            g.e("BitStream_EncodeOctetString_fragmentation", mk, (lambda cs: lit_bits(len(cs), 8) + content(cs)), (lambda cs, S=S: [S(cs), len(cs)]), 4, retflag=1, label="%d octets" % n)
            # not enough room: reported, nothing outside the buffer
            for p in g.pos(4):
                for f in ("BitStream_AppendByteArray", "BitStream_EncodeOctetString_no_length"):
                    if n: g.add(f, enc_noroom, f, n, (lambda cs, S=S: [S(cs), len(cs)]), p)
        for n, mn, mx in ((8, 0, 8), (9, 0, 255), (20, 20, 20), (33, 1, 100), (200, 0, 255), (260, 0, 300), (300, 300, 300)):
            mk = (lambda n=n: chars(n)) if n < 40 else (lambda n=n: pattern(n))
            S = lambda cs: Data(cs, "octets")
            g.e("BitStream_EncodeOctetString", mk, (lambda cs, mn=mn, mx=mx: lit_bits(len(cs) - mn, nbits(mx - mn)) + content(cs)), (lambda cs, S=S, mn=mn, mx=mx: [S(cs), len(cs), mn, mx]), 2, retflag=1, label="%d of %d..%d octets" % (n, mn, mx))
            for f in ("BitStream_AppendByteArray", "BitStream_EncodeOctetString_no_length"): g.e(f, mk, content, (lambda cs, S=S: [S(cs), len(cs)]), 2, retflag=1, label="%d octets" % n)
            for p in (0, 3): g.add("BitStream_AppendByteArray", enc_noroom, "BitStream_AppendByteArray", n, (lambda cs, S=S: [S(cs), len(cs)]), p)
        for n in (127, 128, 129, 255) + ((16383, 16384, 16385, 0x8000, 0xC001, 0x10000, 0x14005, 0x18000, 0x24005, 0x2C003) if D else (16383, 16384, 0x8001, 0xC000, 0xC001, 0x10000, 0x10001)):
            ps = (0, 3) if n < 300 else ((n // 0x4000) % 2 * 5,) if not D else (0, 5)
            for p in ps:
                g.add("BitStream_EncodeOctetString_fragmentation", wrap_big(enc1, 40000000), "BitStream_EncodeOctetString_fragmentation", (lambda n=n: pattern(n)), (lambda cs: frag_bits(cs)), (lambda cs: [Data(cs, "octets"), len(cs)]), p, 1, "%d octets" % n, {})
    if dec_:
        for n in ((0, 1, 2, 3, 5) if D else (0, 1, 2, 4)):
            sp = lambda F, rd, n=n: {"a": [rd.u(8, 8) for _ in range(n)]}
            for f in ("BitStream_ReadByteArray", "BitStream_DecodeOctetString_no_length"):
                g.d(f, [("a", n)], sp, (lambda a, n=n: [a, n]), 8 * n, 8, "%d octets" % n)
            for mn, mx in ((n, n), (0, n), (0, n + 1), (1, n + 3), (min(1, n), 20)):
                if mn > mx: continue
                def spec(F, rd, mn=mn, mx=mx):
                    k = bounded_len(F, rd, mn, mx)
                    return {"n": (k, 32), "a": [rd.u(8, 8) for _ in range(k)]}
                g.d("BitStream_DecodeOctetString", [("a", mx), ("n", 4)], spec, (lambda a, nn, mn=mn, mx=mx: [a, nn, mn, mx]), nbits(mx - mn) + 8 * min(mx, n), 2, "%d..%d octets" % (mn, mx))
        for n, mn, mx in ((8, 0, 8), (9, 0, 255), (20, 20, 20), (33, 1, 100), (200, 0, 255), (260, 0, 300), (300, 300, 300)):
            def spec(F, rd, mn=mn, mx=mx):
                k = bounded_len(F, rd, mn, mx)
                return {"n": (k, 32), "a": [rd.u(8, 8) for _ in range(k)]}
            g.d("BitStream_DecodeOctetString", [("a", mx), ("n", 4)], spec, (lambda a, nn, mn=mn, mx=mx: [a, nn, mn, mx]), nbits(mx - mn) + 8 * n, 1, "%d of %d..%d octets" % (n, mn, mx), cells=(lambda p, nb, n=n, mn=mn, mx=mx: place(p, nb, lit_bits(n - mn, nbits(mx - mn)))), cuts="few", lead=False)
            for f in ("BitStream_ReadByteArray", "BitStream_DecodeOctetString_no_length"): g.d(f, [("a", n)], (lambda F, rd, n=n: {"a": [rd.u(8, 8) for _ in range(n)]}), (lambda a, n=n: [a, n]), 8 * n, 2, "%d octets" % n, cuts="few")
        def sfrag(F, rd, mn, mx):
            a = []
            n = frag_len(F, rd, mn, mx, 8, lambda k: a.extend(rd.take(8 * k)))
            by = [F.N(simp(tuple(reversed(a[8 * i:8 * i + 8])))) for i in range(n)]
            return {"n": (n, 32), "a": by}
        for n in (0, 1, 2, 3):
            for mn, mx in ((0, 65536), (2, 70000)):
                g.d("BitStream_DecodeOctetString", [("a", mx), ("n", 4)], (lambda F, rd, mn=mn, mx=mx: sfrag(F, rd, mn, mx)), (lambda a, nn, mn=mn, mx=mx: [a, nn, mn, mx]), 8 + 8 * n, 2, "%d..%d octets, %d present" % (mn, mx, n), cells=lambda p, nb, n=n: place(p, nb, lit_bits(n, 8)), lead=False)
            g.d("BitStream_DecodeOctetString_fragmentation", [("a", 2), ("n", 4)], (lambda F, rd: sfrag(F, rd, 0, 2)), (lambda a, nn: [a, nn, 2]), 8 + 8 * n, 4, "at most 2 octets", cells=lambda p, nb, n=n: place(p, nb, lit_bits(n, 8)), lead=False)
        for p in range(8):       # any header
            g.add("BitStream_DecodeOctetString_fragmentation", dec1, "BitStream_DecodeOctetString_fragmentation", [("a", 2), ("n", 4)], (lambda F, rd: sfrag(F, rd, 0, 2)), (lambda a, nn: [a, nn, 2]), p, 4, "any header", None, True, None)
        for n in (127, 128, 129) + ((0x3FFF, 0x4000, 0x4001, 0x8000, 0xC000, 0xC001, 0x10000, 0x14005, 0x20001, 0x2C003) if D else (0x3FFF, 0x4000, 0x4001, 0x8001, 0xC000, 0x10001)):
            for p in ((0, 3) if n < 300 else ((n // 0x4000) % 2 * 5,) if not D else (0, 5)):
                for cut in (0, 1):
                    for over in (0, 1, 2):       # 2: exactly the maximum
                        if over == 1 and (cut or n > 300 and n != 0x4001): continue
                        if over == 2 and (cut or n not in (129, 0x4000, 0x4001)): continue
                        if cut and n > 300 and n != 0x4001 and not D: continue
                        def cells(pp, nb, n=n):
                            fl = frag_bits(pattern(n))
                            return place(pp, nb, fl)
                        full = (p + len(frag_bits(pattern(n))) + 7) // 8
                        mx = n - 1 if over == 1 else n if over else n + 3
                        g.add("BitStream_DecodeOctetString_fragmentation", wrap_big(dec1, 40000000), "BitStream_DecodeOctetString_fragmentation", [("a", mx), ("n", 4)], (lambda F, rd, mx=mx: sfrag(F, rd, 0, mx)), (lambda a, nn, mx=mx: [a, nn, mx]), p, full - cut, "%d octets, at most %d" % (n, mx), cells, True, None)

        for hs, mx in (((0xC1, 0xC1), 0x4000), ((0xC1, 0xC2), 0x8001), ((0xC2,), 0x7FFF), ((0xC1, 0x81), 0x4010)):
            def cells(pp, nb, hs=hs):
                fl = []
                for h in hs: fl += lit_bits(h, 8) + [0] * (8 * (0x4000 * (h & 7) if h >= 0xC0 else 1))
                return place(pp, nb, fl)
            nb = sum(1 + (0x4000 * (h & 7) if h >= 0xC0 else 300) for h in hs) + 40
            for p in (0, 3) if D else (0,):
                g.add("BitStream_DecodeOctetString_fragmentation", wrap_big(dec1, 40000000), "BitStream_DecodeOctetString_fragmentation", [("a", mx), ("n", 4)], (lambda F, rd, mx=mx: sfrag(F, rd, 0, mx)), (lambda a, nn, mx=mx: [a, nn, mx]), p, nb, "blocks %r, at most %d" % (hs, mx), cells, True, None)

def frag_bits(cs):
    r = []; o = 0
    for h, n in fragments(len(cs)):
        r += h
        for c in cs[o:o + n]: r += bits_of(c)
        o += n
    return r

def enc_noroom(c, fn, n, args, pos):
    """room for one octet less than needed: the operation reports it and stays inside"""
    out = []
    m = Mach(c)
    nb = (pos + 8 * n + 7) // 8 - 1
    m.buf(nb); bs = m.bs(pos)
    cs = chars(n)
    np_ = 0
    for s in m.run(fn, [bs] + [realise(m, a) for a in args(cs)]):
        np_ += 1
        label = "%d octets at bit %d of %d bytes" % (n, pos, nb)
        if fault_of(s, fn, label, out): continue
        r = s.F.N(s.user.get("ret"))
        if r != 0: found(out, s.F, "ret", fn, "reports success although the octets do not fit", label)
        b0 = m.bits0()
        for i, x in enumerate(m.bitsnow(s)[:pos]):
            if s.F.L(x) != s.F.L(b0[i]): found(out, s.F, "neigh", fn, "bit %d before the field is changed" % i, label); break
    return out, np_

def bitstr(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    def cells_of(bs_):
        """bits (msb first) -> bytes; unused bits unknown"""
        b = list(bs_)
        while len(b) % 8: b.append(fresh("u"))
        return [tuple(reversed(b[i:i + 8])) for i in range(0, len(b), 8)]
    def mkb(n): return [fresh("b%d" % i) for i in range(n)]
    ns = list(range(0, 27)) + [40, 64, 65, 131] if D else (0, 1, 2, 5, 7, 8, 9, 12, 15, 16, 17, 23)
    if enc_:
        for n in ns:
            mk = lambda n=n: mkb(n)
            S = lambda v: Data(cells_of(v), "bit string")
            g.e("BitStream_AppendBits", mk, (lambda v: list(v)), (lambda v, S=S: [S(v), len(v)]), 8, retflag=1, label="%d bits" % n)
            if n == 9:
                for k in (33, 64, 65, 130, 270): g.e("BitStream_AppendBits", (lambda k=k: mkb(k)), (lambda v: list(v)), (lambda v, S=S: [S(v), len(v)]), 2, retflag=1, label="%d bits" % k)
                for k, lo, hi in ((40, 0, 64), (64, 64, 64), (130, 1, 200), (270, 0, 300)): g.e("BitStream_EncodeBitString", (lambda k=k: mkb(k)), (lambda v, mn=lo, mx=hi: lit_bits(len(v) - mn, nbits(mx - mn)) + list(v)), (lambda v, S=S, mn=lo, mx=hi: [S(v), len(v), mn, mx]), 1, retflag=1, label="%d of %d..%d bits" % (k, lo, hi))
            for mn, mx in ((n, n), (0, max(n, 1)), (0, 255), (n, n + 5), (0, 65535), (1, 300)):
                if mn > n: continue
                g.e("BitStream_EncodeBitString", mk, (lambda v, mn=mn, mx=mx: lit_bits(len(v) - mn, nbits(mx - mn)) + list(v)), (lambda v, S=S, mn=mn, mx=mx: [S(v), len(v), mn, mx]), 2, retflag=1, label="%d of %d..%d bits" % (n, mn, mx))
            g.e("BitStream_EncodeBitString", mk, (lambda v: lit_bits(len(v), 8) + list(v)), (lambda v, S=S: [S(v), len(v), 0, 70000]), 3, retflag=1, label="%d bits, fragmented form" % n)
        for n in (127, 128, 135, 0x3FFF, 0x4000, 0x4003, 0x7FFF, 0x8000, 0xBFFF, 0xC000, 0xC009, 0xFFFF, 0x10000, 0x14002, 0x1C003, 0x20000):
            def mk(n=n):
                return [b for c in pattern((n + 7) // 8) for b in lit_bits(c, 8)][:n]
            def ex(v):
                r = []; o = 0
                for h, k in fragments(len(v)): r += h + v[o:o + k]; o += k
                return r
            for p in (0, 3) if D or n < 300 else (n % 8,):
                g.add("BitStream_EncodeBitString", wrap_big(enc1, 20000000), "BitStream_EncodeBitString", mk, ex, (lambda v: [Data([x if not isinstance(x, tuple) else simp(x) for x in cells_of(v)], "bit string"), len(v), 0, 0x20000]), p, 1, "%d bits" % n, {})
    if dec_:
        def items(F, rd, n):
            b = rd.take(n)
            r = []
            for i in range(0, n, 8): r.append(F.N(simp(tuple(reversed(b[i:i + 8])))) if i + 8 <= n else Top(b[i:n]))
            return r
        for n in ns:
            nb = (n + 7) // 8
            g.d("BitStream_ReadBits", [("a", nb)], (lambda F, rd, n=n: {"a": items(F, rd, n)}), (lambda a, n=n: [a, n]), n, 8, "%d bits" % n)
            for mn, mx in ((n, n), (0, n), (max(0, n - 2), n + 3)):
                def spec(F, rd, mn=mn, mx=mx):
                    k = bounded_len(F, rd, mn, mx)
                    return {"n": (k, 32), "a": items(F, rd, k)}
                g.d("BitStream_DecodeBitString", [("a", (mx + 7) // 8), ("n", 4)], spec, (lambda a, nn, mn=mn, mx=mx: [a, nn, mn, mx]), nbits(mx - mn) + mx, 2, "%d..%d bits" % (mn, mx), cuts="few")
        for n, mn, mx in ((40, 0, 64), (64, 64, 64), (130, 1, 200), (270, 0, 300)):
            def spec(F, rd, mn=mn, mx=mx):
                k = bounded_len(F, rd, mn, mx)
                return {"n": (k, 32), "a": items(F, rd, k)}
            g.d("BitStream_ReadBits", [("a", (n + 7) // 8)], (lambda F, rd, n=n: {"a": items(F, rd, n)}), (lambda a, n=n: [a, n]), n, 2, "%d bits" % n, cuts="few")
            g.d("BitStream_DecodeBitString", [("a", (mx + 7) // 8), ("n", 4)], spec, (lambda a, nn, mn=mn, mx=mx: [a, nn, mn, mx]), nbits(mx - mn) + n, 1, "%d of %d..%d bits" % (n, mn, mx), cells=(lambda p, nb, n=n, mn=mn, mx=mx: place(p, nb, lit_bits(n - mn, nbits(mx - mn)))), cuts="few", lead=False)
        def sfrag(F, rd, mn, mx):
            a = []
            n = frag_len(F, rd, mn, mx, 1, lambda k: a.extend(rd.take(k)))
            r = []
            for i in range(0, n, 8): r.append(F.N(simp(tuple(reversed(a[i:i + 8])))) if i + 8 <= n else Top(a[i:n]))
            return {"n": (n, 32), "a": r}
        for n in (0, 1, 7, 8, 9, 17):
            for mn, mx in ((0, 65536), (2, 70000)):
                g.d("BitStream_DecodeBitString", [("a", (mx + 7) // 8), ("n", 4)], (lambda F, rd, mn=mn, mx=mx: sfrag(F, rd, mn, mx)), (lambda a, nn, mn=mn, mx=mx: [a, nn, mn, mx]), 8 + n, 2, "%d..%d bits, %d present" % (mn, mx, n), cells=lambda p, nb, n=n: place(p, nb, lit_bits(n, 8)), lead=False)
        for p in range(8):
            g.add("BitStream_DecodeBitString", dec1, "BitStream_DecodeBitString", [("a", 8192), ("n", 4)], (lambda F, rd: sfrag(F, rd, 0, 65536)), (lambda a, nn: [a, nn, 0, 65536]), p, 3, "any header", None, True, None)
        for n in (127, 128, 0x3FFF, 0x4000, 0x4003, 0x8000, 0xC000, 0xC009, 0xFFFF, 0x10000, 0x14002, 0x1C003, 0x20000):
            for p in (0, 3) if D or n < 300 else (n % 8,):
                for cut in (0, 1):
                    fl = []; o = 0; v = [b for c in pattern((n + 7) // 8) for b in lit_bits(c, 8)][:n]
                    for h, k in fragments(n): fl += h + v[o:o + k]; o += k
                    full = (p + len(fl) + 7) // 8
                    mx = max(65536, n)
                    g.add("BitStream_DecodeBitString", wrap_big(dec1, 20000000), "BitStream_DecodeBitString", [("a", (mx + 7) // 8), ("n", 4)], (lambda F, rd, mx=mx: sfrag(F, rd, 0, mx)), (lambda a, nn, mx=mx: [a, nn, 0, mx]), p, full - cut, "%d bits" % n, (lambda pp, nb, fl=fl: place(pp, nb, fl)), True, None)

        # blocks that are one too many for the declared maximum
        for hs, mx in (((0xC4, 0xC4), 65600), ((0xC1, 0xC4), 65536 + 0x3FFF), ((0xC3, 0xC2), 65536), ((0xC4, 0x81), 65600)):
            for p in (0, 5) if D else (0,):
                def cells(pp, nb, hs=hs):
                    fl = []
                    for h in hs: fl += lit_bits(h, 8) + [0] * (0x4000 * (h & 7) if h >= 0xC0 else 8)
                    return place(pp, nb, fl)
                nb = (p + sum(8 + (0x4000 * (h & 7) if h >= 0xC0 else 400) for h in hs)) // 8 + 40
                g.add("BitStream_DecodeBitString", wrap_big(dec1, 20000000), "BitStream_DecodeBitString", [("a", (mx + 7) // 8), ("n", 4)], (lambda F, rd, mx=mx: sfrag(F, rd, 0, mx)), (lambda a, nn, mx=mx: [a, nn, 0, mx]), p, nb, "blocks %r, at most %d bits" % (hs, mx), cells, True, None)

# ============================================================ bit level operations
def bitops(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    for f, zero in ((("BitStream_Init", 1), ("BitStream_Init2", 1)) if enc_ else ()) + ((("BitStream_AttachBuffer", 0), ("BitStream_AttachBuffer2", 0)) if dec_ else ()):
        for n in (1, 7, 64): g.add(f, setup, f, n, zero)
    if enc_:
        for pos in range(0, 24): g.add("BitStream_GetLength", getlength, "BitStream_GetLength", pos)
    if enc_:
        one = lambda: fresh_bits("v", 8)
        g.e("BitStream_AppendBitOne", (lambda: None), (lambda v: [1]), (lambda v: []), 8)
        g.e("BitStream_AppendBitZero", (lambda: None), (lambda v: [0]), (lambda v: []), 8)
        for x in (0, 1): g.e("BitStream_AppendBit", (lambda x=x: x), (lambda v: [1 if v else 0]), (lambda v: [v]), 8 if x < 2 else 2, label=str(x))
        g.e("BitStream_AppendBit", (lambda: fresh_bits("v", 1)), (lambda v: [v[0]]), (lambda v: [val(v + (0,) * 7)]), 8)
        for n in (list(range(0, 20)) if D else [0, 1, 2, 5, 7, 8, 9, 15, 16, 17]) + [33, 64, 65, 300]:
            g.e("BitStream_AppendNBitZero", (lambda: None), (lambda v, n=n: [0] * n), (lambda v, n=n: [n]), 8, label="%d bits" % n)
            g.e("BitStream_AppendNBitOne", (lambda: None), (lambda v, n=n: [1] * n), (lambda v, n=n: [n]), 8, label="%d bits" % n)
        for neg in (0, 1): g.e("BitStream_AppendByte", one, (lambda v, neg=neg: [l ^ neg for l in msb(v, 8)]), (lambda v, neg=neg: [val(v), neg]), 8, label="negate=%d" % neg)
        g.e("BitStream_AppendByte0", one, (lambda v: msb(v, 8)), (lambda v: [val(v)]), 8, retflag=1)
        for p in range(1, 8): g.add("BitStream_AppendByte0", enc_noroom, "BitStream_AppendByte0", 1, (lambda cs: [simp(cs[0])]), p)
        for n in range(1, 8):
            for neg in (0, 1):
                g.e("BitStream_AppendPartialByte", (lambda n=n: fresh_bits("v", n)), (lambda v, n=n, neg=neg: [l ^ neg for l in msb(v, n)]), (lambda v, n=n, neg=neg: [val(v + (0,) * (8 - n)), n, neg]), 8, label="%d bits, negate=%d" % (n, neg))
        for f, u in (("Byte", 8), ("Word", 16), ("DWord", 32)):
            for by in range(5):
                for p in range(8) if D else (0, 1, 6, 7):
                    g.add("Acn_AlignToNext" + f, align_enc, "Acn_AlignToNext" + f, 8 * by + p, u)
    if dec_:
        def flagval(F, l): return ("flag", l)
        g.d("BitStream_ReadBit", [("v", 1)], (lambda F, rd: {"v": [Flag(rd.take(1)[0])]}), (lambda v: [v]), 1, 8)
        g.d("BitStream_ReadByte", [("v", 1)], (lambda F, rd: {"v": (rd.u(8, 8), 8)}), (lambda v: [v]), 8, 8)
        for n in range(1, 8):
            g.d("BitStream_ReadPartialByte", [("v", 1)], (lambda F, rd, n=n: {"v": (F.N(simp(tuple(reversed(rd.take(n))) + (0,) * (8 - n))), 8)}), (lambda v, n=n: [v, n]), n, 8, "%d bits" % n)
        for p in range(8): g.add("BitStream_PeekBit", peek, "BitStream_PeekBit", p)
        pats = [(0x80, 1), (0x00, 3), (0xA5, 8), (0xFFF0, 12), (0x0001, 16), (0x123450, 20)] + ([(0x55AA5580, 25)] if D else [])
        for pv, n in pats:
            nb = (n + 7) // 8
            by = [(pv >> (8 * (nb - 1 - i))) & 0xFF for i in range(nb)]
            pb = [b for y in by for b in lit_bits(y, 8)][:n]
            for pos in range(8):
                for k in range(0, (pos + n + 7) // 8 + 1): g.add("BitStream_checkBitPatternPresent", present, "BitStream_checkBitPatternPresent", by, pb, n, pos if k else 0, k)
            g.d("BitStream_ReadBitPattern", [("v", 1)], (lambda F, rd, pb=pb, n=n: (lambda x: {"v": [Flag(int(all(decide(F, eqbit(F, a, b)) for a, b in zip(x, pb))))]})(rd.take(n))), (lambda v, by=by, n=n: [Data(by, "pattern"), n, v]), n, 4, "%d bits" % n)
            g.d("BitStream_ReadBitPattern_ignore_value", [], (lambda F, rd, n=n: (rd.take(n), {})[1]), (lambda n=n: [n]), n, 4, "%d bits" % n)
            def tf(F, rd, n=n, pb=pb):
                x = rd.take(n)
                if all(decide(F, eqbit(F, a, b)) for a, b in zip(x, pb)): return {"v": [1]}
                if all(decide(F, eqbit(F, a, b ^ 1)) for a, b in zip(x, pb)): return {"v": [0]}
                raise SpecFail("neither pattern")
            inv = [(y ^ 0xFF) & (0xFF if 8 * i + 8 <= n else (0xFF00 >> (n % 8)) & 0xFF) for i, y in enumerate(by)]
            g.d("BitStream_DecodeTrueFalseBoolean", [("v", 1)], tf, (lambda v, by=by, n=n, inv=inv: [Data(by, "true pattern"), Data(inv, "false pattern"), n, v]), n, 4, "%d bits" % n)
        # patterns of equal kind, only partly different
        def tf2(F, rd):
            x = rd.take(9)
            u = conc(F, simp(tuple(reversed(x))), 9)
            if u == 0b101010101: return {"v": [1]}
            if u == 0b101010100: return {"v": [0]}
            raise SpecFail("neither pattern")
        g.d("BitStream_DecodeTrueFalseBoolean", [("v", 1)], tf2, (lambda v: [Data([0xAA, 0x80], "true pattern"), Data([0xAA, 0x00], "false pattern"), 9, v]), 9, 4, "9 bits, last differs")
        for pv, n in ((0x80, 1), (0xC0, 2), (0xA0, 4), (0xFF80, 9), (0x0000, 10)):
            nb = (n + 7) // 8
            by = [(pv >> (8 * (nb - 1 - i))) & 0xFF for i in range(nb)]
            pb = [b for y in by for b in lit_bits(y, 8)][:n]
            for mx in (0, 1, 3, 8, 9) + ((14,) if n == 4 else ()):
                def spec(F, rd, pb=pb, n=n, mx=mx):
                    s = []
                    while True:
                        if rd.left() < n: raise SpecFail("truncated")
                        if all(decide(F, eqbit(F, a, b)) for a, b in zip(rd.b[rd.p:rd.p + n], pb)):
                            rd.take(n); break
                        if len(s) == mx: raise SpecFail("no terminator within the maximum")
                        s.append(rd.take(1)[0])
                    r = []
                    for i in range(0, len(s), 8): r.append(F.N(simp(tuple(reversed(s[i:i + 8])))) if i + 8 <= len(s) else Top(s[i:]))
                    return {"n": (len(s), 32), "a": r}
                g.d("BitStream_ReadBits_nullterminated", [("a", (mx + 7) // 8), ("n", 4)], spec, (lambda a, nn, by=by, n=n, mx=mx: [Data(by, "pattern"), n, a, mx, nn]), mx + n, 2, "at most %d bits, pattern of %d" % (mx, n), cuts="few")
        for f, u in (("Byte", 8), ("Word", 16), ("DWord", 32)):
            for by in range(5):
                for p in range(8) if D else (0, 1, 6, 7):
                    for full in (1, 0):
                        g.add("Acn_AlignToNext" + f, align_dec, "Acn_AlignToNext" + f, 8 * by + p, u, full)

class Flag:
    """a byte that is zero exactly when the literal is 0"""
    def __init__(self, l): self.l = l
class Flag2:
    """a boolean byte: do the bits equal the pattern?"""
    def __init__(self, bits, pat): self.bits, self.pat = bits, pat

def eqbit(F, a, b): return F.L(a) ^ 1 if b == 0 else F.L(a)

def setup(c, fn, n, zero):
    """a stream over a buffer: at its first bit, whole capacity, hooks as given; a new buffer for encoding starts as zeros"""
    out = []; k = 0; label = "buffer of %d bytes" % n
    m = Mach(c)
    m.buf(n)
    m.o = m.E.obj(m.st, c.k["bs_size"], "bit stream", None)
    args = [Ptr(m.o, 0), Ptr(m.b, 0), n]
    hooks = [0, 0]
    if fn[-1] == "2":
        hooks = [Ptr(m.E.obj(m.st, 1, "push parameter", None), 0), Ptr(m.E.obj(m.st, 1, "fetch parameter", None), 0)]
        args += hooks
    E = m.E
    for s in m.run(fn, args):
        k += 1
        if fault_of(s, fn, label, out): continue
        def get(f, size, w): return s.F.N(E.load(s, Ptr(m.o, c.k[f]), size, w))
        q = m.posof(s)
        if q != 0: found(out, s.F, "pos", fn, "the stream does not start at the first bit of the buffer (%s)" % (q,), label)
        got = get("bs_buf", E.psz, E.pw)
        if got != Ptr(m.b, 0): found(out, s.F, "pos", fn, "the stream is not attached to the buffer", label)
        if get("bs_count", c.k["long"], c.LW) != n: found(out, s.F, "pos", fn, "the stream does not have the capacity of the buffer", label)
        for f, h in zip(("bs_push", "bs_fetch"), hooks):
            if get(f, E.psz, E.pw) != h: found(out, s.F, "pos", fn, "the %s hook parameter is not the given one" % f[3:], label)
        now, b0 = m.bitsnow(s), m.bits0()
        for i, x in enumerate(now):
            if s.F.L(x) != (0 if zero else s.F.L(b0[i])): found(out, s.F, "bits" if zero else "input", fn, "bit %d of the buffer is %s" % (i, "not cleared" if zero else "changed"), label); break
    if not k: out.append(V("ret", fn, "no path completes", label))
    return out, k

def getlength(c, fn, pos):
    out = []; k = 0; label = "position %d" % pos
    m = Mach(c); m.buf(4); bs = m.bs(pos)
    for s in m.run(fn, [bs]):
        k += 1
        if fault_of(s, fn, label, out): continue
        if s.F.N(s.user["ret"]) != (pos + 7) // 8: found(out, s.F, "ret", fn, "the length is %s octets instead of %d" % (show(s.F, s.user["ret"], c.W), (pos + 7) // 8), label)
    return out, k

def align_enc(c, fn, pos, unit):
    tgt = (pos + unit - 1) // unit * unit
    out = []
    m = (c.mach or Mach)(c); m.buf(max(tgt // 8, 1)); m.n = tgt // 8
    bs = m.bs(pos)
    np_ = 0
    for s in m.run(fn, [bs, 1]):
        np_ += 1; label = "at bit %d" % pos
        if fault_of(s, fn, label, out): continue
        q = m.posof(s)
        if q != tgt: found(out, s.F, "pos", fn, "moves to bit %s instead of %d" % (q, tgt), label)
        b0 = m.bits0()
        for i, x in enumerate(m.bitsnow(s)):
            if s.F.L(x) != s.F.L(b0[i]) and not pos <= i < tgt: found(out, s.F, "neigh", fn, "bit %d is changed" % i, label); break
    return out, np_

def align_dec(c, fn, pos, unit, full):
    tgt = (pos + unit - 1) // unit * unit
    nb = tgt // 8 if full else (pos + 7) // 8
    if not full and nb * 8 >= tgt: return [], 1
    out = []
    m = (c.mach or Mach)(c); m.buf(nb, name="input"); bs = m.bs(pos)
    np_ = 0
    for s in m.run(fn, [bs, 0]):
        np_ += 1; label = "at bit %d of %d bytes" % (pos, nb)
        if fault_of(s, fn, label, out): continue
        q = m.posof(s)
        if full and q != tgt: found(out, s.F, "pos", fn, "moves to bit %s instead of %d" % (q, tgt), label)
        if m.changed(s): found(out, s.F, "input", fn, "modifies the input", label)
    return out, np_

def peek(c, fn, p):
    out = []; np_ = 0
    for nb in (0, 1, 2, 3):
        for lead in (0, 1, 2):
            if lead > nb: continue
            m = (c.mach or Mach)(c); m.buf(nb, name="input"); pos = 8 * lead + p
            if lead == nb and p: continue
            bs = m.bs(pos); b0 = m.bits0()
            for s in m.run(fn, [bs]):
                np_ += 1; label = "at bit %d of %d bytes" % (pos, nb)
                if fault_of(s, fn, label, out): continue
                r = s.F.N(s.user["ret"])
                if lead < nb:
                    want = s.F.L(b0[pos])
                    nz = s.F.L(s.F.eq(r, 0, 8)) ^ 1
                    if nz != want: found(out, s.F, "value", fn, "does not return the next bit", label)
                if m.posof(s) != pos: found(out, s.F, "pos", fn, "moves the read position", label)
    return out, np_

def present(c, fn, by, pb, n, pos, k):
    out = []; np_ = 0
    m = Mach(c); m.buf(k, name="input"); bs = m.bs(pos); b0 = m.bits0()
    pat = m.data(list(by), "pattern")
    label = "pattern of %d bits at bit %d of %d bytes" % (n, pos, k)
    for s in m.run(fn, [bs, pat, n]):
        np_ += 1
        if fault_of(s, fn, label, out): continue
        def ref(F):
            if pos + n > 8 * k: return 0
            return 2 if all(decide(F, eqbit(F, a, b)) for a, b in zip(b0[pos:pos + n], pb)) else 1
        for f, want in by_spec(s.F, ref):
            r = f.N(s.user["ret"])
            if not same(f, r, want, 32): found(out, f, "accept" if want < 2 else "reject", fn, "answers %s instead of %d" % (show(f, r, 32), want), label); continue
            q = m.posof(s)
            if q != pos + (n if want == 2 else 0): found(out, f, "pos", fn, "leaves the read position at %s" % (q,), label)
        if s.mem[m.b].cells != m.cells0: found(out, s.F, "input", fn, "modifies the input", label)
    return out, np_

# ============================================================ object identifiers
def b128(F, v, W):
    """base-128 octets of v: continuation bits set on all but the last"""
    b = F.bits(F.N(v), W)
    groups = [b[i:i + 7] for i in range(0, W, 7)]
    groups[-1] = groups[-1] + (0,) * (7 - len(groups[-1]))
    n = len(groups)
    while n > 1:
        l = 0
        nz = False
        for x in groups[n - 1]:
            if decide(F, F.L(x)): nz = True; break
        if nz: break
        n -= 1
    out = []
    for i in reversed(range(n)): out += [1 if i else 0] + list(reversed(groups[i]))
    return out

def oids(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    M = (1 << W) - 1
    if enc_:
        shapes = [(0,), (1,), (7,), (8,), (14,), (15,), (21,), (31,)] + ([(32,), (35,), (56,), (62,), (63,), (64,)] if W == 64 else []) + [(7, 8), (1, 14, 3), (9, 0, 20)]
        for nm, rel in (("RelativeOID", True), ("ObjectIdentifier", False)):
            fn = nm + "_uper_encode"
            for sh in shapes + ([()] if not rel else []):
                for p in g.pos(1): g.add(fn, enc_oid, fn, sh, rel, W, p)
        for rel in (True, False):
            fn = ("RelativeOID" if rel else "ObjectIdentifier") + "_uper_encode"
            big = [M - i for i in range(20)]
            if not rel: big[0], big[1] = 2, 39
            for vals in (big, big[:13] + [5] * 7, [1, 2] + [127, 128] * 9, big[:12], big[:14]):
                g.add(fn, enc_oid_c, fn, vals, rel, W, len(vals) % 8)
            if W == 64:                     # contents of 126..129 octets: the length form changes between 127 and 128
                for tot in (125, 126, 127, 128, 129, 160):
                    q, r = divmod(tot - (0 if rel else 1), 9)
                    vals = ([] if rel else [1, 38]) + [(1 << 62) + i for i in range(q)] + ([(1 << 7 * r) - 1] if r else [])
                    g.add(fn, enc_oid_c, fn, vals, rel, W, tot % 8)
    if dec_:
        for nm, rel in (("RelativeOID", True), ("ObjectIdentifier", False)):
            fn = nm + "_uper_decode"
            for n in (1, 2, 3):
                for p in g.pos(2): g.add(fn, dec_oid, fn, n, None, rel, p, n + 1, W)
            for n in (0, 1, 2, 3, 4):
                for p in g.pos(1):
                    for cut in (0, 1):
                        if n == 0 and cut: continue
                        g.add(fn, dec_oid, fn, n, "len", rel, p, (p + 8 + 8 * n + 7) // 8 - cut, W)
            for n in (19, 20, 21, 22):      # number of components at the limit
                g.add(fn, dec_oid, fn, n, "flat", rel, n % 8, (n % 8 + 8 + 8 * n + 7) // 8, W)
            for n in (130, 200, 0x7FFF): g.add(fn, dec_oid, fn, n, "long", rel, n % 8, 12, W)
            g.add(fn, dec_oid, fn, 130, "long", rel, 0, 132, W)
            for n in (125, 126, 127): g.add(fn, dec_oid, fn, n, "short", rel, n % 8, n + 2, W)
            for n in (128, 129, 120): g.add(fn, dec_oid, fn, n, "long", rel, n % 8, n + 3, W)
            g.add(fn, dec_oid, fn, 140, "long", rel, 3, 143, W)

def oid_obj(m, vals, n, W):
    k = m.c.k
    o = m.E.obj(m.st, k["oid_size"], "object identifier", None)
    m.E.store(m.st, Ptr(o, k["oid_n"]), n, 4, 32)
    for i, v in enumerate(vals): m.E.store(m.st, Ptr(o, k["oid_v"] + i * W // 8), v, W // 8, W)
    return Ptr(o, 0)

def oid_len(n): return lit_bits(n, 8) if n <= 0x7F else [1] + lit_bits(n, 15)

def enc_oid(c, fn, shape, rel, W, pos):
    """components of the given numbers of significant bits"""
    us = [U(L, W) for L in shape]
    sizes = [max(1, (L + 6) // 7) for L in shape]
    first = []
    if not rel: first = [2, 39]; sizes = [1] + sizes      # 2*40+39 = 119: one octet
    tot = sum(sizes)
    def ex(F):
        r = oid_len(tot)
        if not rel: r += lit_bits(119, 8)
        for u in us: r += b128(F, simp(tuple(F.L(l) for l in u)), W)
        return r
    def args(m, bs, _): return [bs, oid_obj(m, first + [simp(u) for u in us], len(first) + len(us), W)]
    out, n = enc(c, fn, args, Exp(len(oid_len(tot)) + 8 * tot, ex), pos, "components of %s bits at bit %d" % (shape, pos))
    return out, n

def enc_oid_c(c, fn, vals, rel, W, pos):
    def b(v):
        s = [v & 127]; v >>= 7
        while v: s.append(128 | v & 127); v >>= 7
        return list(reversed(s))
    seq = vals if rel else [vals[0] * 40 + vals[1]] + vals[2:]
    by = [y for v in seq for y in b(v)]
    bits = oid_len(len(by)) + [x for y in by for x in lit_bits(y, 8)]
    return enc(c, fn, lambda m, bs, _: [bs, oid_obj(m, vals, len(vals), W)], bits, pos, "%d components, %d octets" % (len(vals), len(by)))

def dec_oid(c, fn, n, mode, rel, pos, nbytes, W):
    k = c.k
    mem = k["oid_v"]
    cells = None
    if mode == "len": cells = place(pos, nbytes, lit_bits(n, 8))
    elif mode == "flat": cells = place(pos, nbytes, lit_bits(n, 8) + [b for i in range(n) for b in ([0] + lit_bits(i * 5 % 128, 7))])
    elif mode == "short": cells = place(pos, nbytes, lit_bits(n, 8) + [b for i in range(nbytes) for b in lit_bits(0x80 | i & 0x7F if i % 7 != 6 else i & 0x7F, 8)][:8 * nbytes])
    elif mode == "long": cells = place(pos, nbytes, [1] + lit_bits(n, 15) + [b for i in range(nbytes) for b in lit_bits(0x80 | i & 0x7F if i % 7 != 6 else i & 0x7F, 8)][:8 * nbytes])
    WB = W // 8
    def mk(m, bs):
        o = m.out(k["oid_size"], "object identifier")
        outs = {"n": (Ptr(o.o, k["oid_n"]), 4)}
        for i in range(20): outs["v%d" % i] = (Ptr(o.o, k["oid_v"] + i * WB), WB)
        return [bs, o], outs
    def spec(F, rd):
        h = conc(F, rd.u(8, 32), 32)
        tot = h if h <= 127 else (h & 0x7F) << 8 | conc(F, rd.u(8, 32), 32)
        comps = []; left = tot
        def sub():
            nonlocal left
            v = 0; bits = ()
            while left:
                o = rd.take(8); left -= 1
                bits = tuple(reversed(o[1:])) + bits
                if not decide(F, F.L(o[0])): break
            bits = (bits + (0,) * W)[:W]
            return F.N(simp(bits))
        if not rel:
            v = sub()
            q, r = F.divmod(v, 40, W)
            comps += [q, r]
        while left:
            if len(comps) == 20: raise SpecFail("too many components")
            comps.append(sub())
        r = {"n": (len(comps), 32)}
        for i, v in enumerate(comps): r["v%d" % i] = (v, W)
        return r
    return dec(c, fn, mk, spec, pos, nbytes, "%s %s octets at bit %d of %d bytes" % (mode or "any", n, pos, nbytes), cells=cells)

# ============================================================ REAL (uPER)
def reals(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    f = "BitStream_EncodeReal"
    def dbits(x): return struct.unpack(">Q", struct.pack(">d", x))[0]
    if enc_:
        for x, by in ((0.0, [0]), (float("inf"), [1, 0x40]), (float("-inf"), [1, 0x41]), (float("nan"), [1, 0x42])):
            g.e(f, (lambda x=x: dbits(x)), (lambda v, by=by: [b for y in by for b in lit_bits(y, 8)]), (lambda v: [v]), 8, label=repr(x))
        es = range(1, 2047) if D else sorted(set([1, 2, 3, 500, 919, 920, 946, 947, 948, 949, 1000, 1022, 1023, 1024, 1040, 1075, 1076, 1074, 1202, 1203, 1204, 1205, 1500, 1874, 2045, 2046]))
        for e in es:
            for sg in (0, 1):
                ex = e - 1075
                k = slen((ex if ex >= 0 else -ex - 1).bit_length())
                def bits(v, ex=ex, k=k, sg=sg):
                    m_ = v[:52] + (1, 0, 0, 0)
                    return lit_bits(1 + k + 7, 8) + lit_bits(0x80 | sg << 6 | (k - 1), 8) + lit_bits(ex & ((1 << (8 * k)) - 1), 8 * k) + list(reversed(m_))
                g.e(f, (lambda e=e, sg=sg: fresh_bits("m", 52) + tuple(reversed(lit_bits(e, 11))) + (sg,)), bits, (lambda v: [val(v)]), 1 if D else 2, label="exponent field %d, sign %d" % (e, sg))
        # subnormal numbers: value = mantissa * 2^-1074
        for L in (range(1, 53) if D else (1, 2, 7, 8, 9, 24, 40, 51, 52)):
            def bits(v, L=L):
                nm = ulen(L)
                return lit_bits(1 + 2 + nm, 8) + lit_bits(0x81, 8) + lit_bits(-1074 & 0xFFFF, 16) + msb(v + (0,) * 8, 8 * nm)
            g.e(f, (lambda L=L: fresh_bits("m", L - 1) + (1,) + (0,) * (64 - L)), bits, (lambda v: [val(v)]), 1, label="subnormal with %d significant bits" % L)
    if dec_:
        f = "BitStream_DecodeReal"
        out = [("v", 8)]
        # any input: nothing outside, no abort
        def special(F, rd):
            n = conc(F, rd.u(8, 32), 32)
            if n == 0: return {"v": (dbits(0.0), 64)}
            h = conc(F, rd.u(8, 32), 32)
            if h in (0x40, 0x41, 0x42, 0x43): return {"v": ({0x40: dbits(float("inf")), 0x41: dbits(float("-inf")), 0x42: None, 0x43: dbits(-0.0)}[h], 64)}
            el = (h & 3) + 1
            if el > n - 1: raise SpecFail("exponent longer than the value")
            rd.take(8 * el); rd.take(8 * (n - 1 - el))
            return {"v": (None, 64)}
        for n in (0, 1, 2, 3, 5):
            for h in (0x40, 0x41, 0x42, 0x43, 0x80, 0x81, 0xC0, 0x82, 0x83):
                if n == 0 and h != 0x40: continue
                for cut in (0, 1):
                    nb = 1 + n - cut
                    body = [0, 3, 5, 7, 1]
                    by = [n, h] + body
                    for p in g.pos(1):
                        tb = (p + 8 * (1 + n) + 7) // 8 - cut
                        g.add(f, dec1, f, out, special, (lambda v: [v]), p, tb, "length %d, header %#x" % (n, h), (lambda pp, k, by=by: place(pp, k, [b for y in by[:k + 2] for b in lit_bits(y, 8)])), True, None)
        import fractions
        def value(h, e, m_):
            B = 8 if h & 0x10 else 16 if h & 0x20 else 2
            F_ = (h >> 2) & 3
            x = fractions.Fraction(m_) * 2 ** F_ * fractions.Fraction(B) ** e
            if h & 0x40: x = -x
            try: return float(x)
            except OverflowError: return float("-inf") if h & 0x40 else float("inf")
        cases = []
        for h in (0x80, 0xC0, 0x84, 0x88, 0x8C, 0x90, 0xA0, 0xD4):
            for e in (0, 1, -1, 5, -7, 100, -100, 127, -128):
                for m_ in (1, 3, 255, 256, 65537): cases.append((h, e, 1, m_))
        for e in (200, -200, 1000, -1000, 971, -1074, -1073, 1023): cases += [(0x81, e, 2, 1), (0xC1, e, 2, (1 << 53) - 1 if -1000 < e < 972 else 1), (0x91, e // 3, 2, 5), (0xA1, e // 4, 2, 5)]
        for e in (0, 1, -1, 30, -30): cases += [(0x82, e, 3, 77), (0x83, e, 4, 77), (0x80, e, 1, (1 << 53) - 1), (0x80, e, 1, 0)]
        for h, e, k, m_ in cases:
            mb = m_.to_bytes(max(1, (m_.bit_length() + 7) // 8), "big")
            by = [1 + k + len(mb), h] + list((e & ((1 << (8 * k)) - 1)).to_bytes(k, "big")) + list(mb)
            x = value(h, e, m_)
            if x != 0 and abs(x) < 2.3e-308 and m_ > 1: continue
            def sp(F, rd, by=by, x=x):
                rd.take(8 * len(by)); return {"v": (dbits(x), 64)}
            if not D and (h * 7 + e + m_) % 3 and k == 1: continue
            g.d(f, out, sp, (lambda v: [v]), 8 * len(by), 1, "header %#x, exponent %d, mantissa %d" % (h, e, m_), cells=(lambda p, n, by=by: place(p, n, [b for y in by for b in lit_bits(y, 8)])), cuts="full", lead=False)
        # wildly large exponents end quickly
        for by in ([7, 0x83, 0x7F, 0xFF, 0xFF, 0xFF, 1, 1], [7, 0x83, 0x80, 0, 0, 0, 1, 1], [5, 0x82, 0x7F, 0xFF, 0xFF, 1], [6, 0xA3, 0x7F, 0xFF, 0xFF, 0xFF, 9], [6, 0x93, 0x80, 0, 0, 0, 9], [12, 0x80, 0] + [255] * 10):
            def sp2(F, rd, by=by): rd.take(8 * len(by)); return {"v": (None, 64)}
            g.d(f, out, sp2, (lambda v: [v]), 8 * len(by), 1, "%s" % by, cells=(lambda p, n, by=by: place(p, n, [b for y in by for b in lit_bits(y, 8)])), cuts="few", lead=False)

# ============================================================ deferred determinants
DETS = [("U8", 8, 0, 0), ("U16_BE", 16, 0, 0), ("U32_BE", 32, 0, 0), ("U64_BE", 64, 0, 0), ("U16_LE", 16, 0, 1), ("U32_LE", 32, 0, 1), ("U64_LE", 64, 0, 1),
        ("I8", 8, 1, 0), ("I16_BE", 16, 1, 0), ("I32_BE", 32, 1, 0), ("I64_BE", 64, 1, 0), ("BOOL1", 1, 0, 0)]

def dets(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    if not enc_: return
    for nm, n, sg, le in DETS:
        if n > W: continue
        for p in range(8):
            vals = [(L, neg) for neg in ((0, 1) if sg else (0,)) for L in ((range(n + 1 - sg)) if D else sorted({0, n // 2, max(n - 1 - sg, 0), n - sg}))]
            for i, (L, neg) in enumerate(vals):
                if not D and i % 2 != p % 2 and len(vals) > 1: continue
                g.add("Acn_PatchDet_" + nm, det_job, nm, n, None, le, L, neg, p, W)
    for nm in ("ConstSize", "TwosComplement_ConstSize"):
        for n in (range(1, W + 1) if D else [x for x in (1, 3, 7, 8, 9, 13, 16, 24, 31, 33, 63, 64) if x <= W]):
            for L in sorted({0, n // 2, n - (nm != "ConstSize")}):
                for p in g.pos(2): g.add("Acn_PatchDet_" + nm, det_job, nm, n, n, 0, L, 0, p, W)
                if nm != "ConstSize":
                    for p in g.pos(1): g.add("Acn_PatchDet_" + nm, det_job, nm, n, n, 0, min(L, n - 1), 1, p, W)
    for n, ln in ((1, 1), (2, 1), (3, 3), (4, 0), (2, 2)) + (((5, 3),) if D else ()):
        for p in g.pos(2): g.add("Acn_PatchDet_IA5String_FixSize", det_str, n, ln, p)
    for f, unit in (("Acn_BitStream_DistanceInBytes", 8), ("Acn_BitStream_DistanceInBits", 1)): g.add(f, distance, f, unit)

def next_state(m, s):
    m.st = s
    s.user = {}; s.events = []
    return m

def setpos(m, pos):
    k = m.c.k
    m.E.store(m.st, Ptr(m.o, k["bs_cbyte"]), pos // 8, k["long"], m.c.LW)
    m.E.store(m.st, Ptr(m.o, k["bs_cbit"]), pos % 8, 4, 32)

def det_seq(c, name, init, patch, width, pos, label, expect, differ, isat):
    """reserve, write something else, patch, patch again with the same and with another value"""
    out = []; np_ = 0
    rel = "Acn_PatchDet_" + name
    m = Mach(c)
    tail = 11
    m.buf((pos + width + tail + 7) // 8); m.bs(pos)
    det = m.out(c.k["det_size"], "determinant")
    b0 = m.bits0()
    end = pos + width
    for s in m.run("Acn_InitDet_" + name, init(m, det)):
        if fault_of(s, "Acn_InitDet_" + name, label, out): continue
        q = m.posof(s)
        if q != end: found(out, s.F, "pos", "Acn_InitDet_" + name, "reserves %s bits instead of %d" % (q - pos if isinstance(q, int) else q, width), label); continue
        now = m.bitsnow(s)
        for i in range(len(now)):
            if not pos <= i < end and s.F.L(now[i]) != s.F.L(b0[i]): found(out, s.F, "neigh", "Acn_InitDet_" + name, "bit %d outside the reserved field is changed" % i, label); break
        cur = end + tail - 4
        for step, a in enumerate(patch):
            pass
        def stage(s, i, ok_before):
            nonlocal np_
            if i == len(patch): return
            mm = Mach.__new__(Mach); mm.__dict__.update(m.__dict__); next_state(mm, s)
            setpos(mm, cur)
            err = mm.out(4, "error code")
            mm.E.store(mm.st, err, 0, 4, 32)
            before = mm.bitsnow(mm.st)
            for t in mm.run(rel, patch[i](mm, det, err)):
                np_ += 1
                if fault_of(t, rel, label, out): continue
                r = t.F.N(t.user["ret"])
                if mm.posof(t) != cur: found(out, t.F, "pos", rel, "does not restore the write position", label)
                for f, (ex, okw) in by_spec(t.F, lambda f: (expect(f, 0), isat(f, i))):
                    now = mm.bitsnow(t)
                    if not same(f, r, okw, 8): found(out, f, "ret", rel, "patch number %d reports %s instead of %s" % (i + 1, show(f, r, 1), okw), label); continue
                    for j in range(len(now)):
                        want = ex[j - pos] if pos <= j < end else before[j]
                        x, y = f.L(now[j]), f.L(want)
                        if x != y:
                            if found(out, f, "bits" if pos <= j < end else "neigh", rel, "after patch number %d bit %d is %s, expected %s" % (i + 1, j - pos, litname(f, x), litname(f, y)), label, (lambda ev, x=x, y=y: ev.lit(x) != ev.lit(y)), ((x, y),)): break
                    if not okw:
                        e = f.N(t.mem[err.o].cells and mm.E.load(t, err, 4, 32))
                        if e != c.k["err_mismatch"] & 0xFFFFFFFF: found(out, f, "ret", rel, "a different second value leaves the error code %s" % (e,), label)
                stage(t, i + 1, True)
        stage(s, 0, True)
    if not np_: out.append(V("ret", rel, "no path completes", label))
    return out, np_

def det_job(c, nm, n, nbarg, le, L, neg, pos, W):
    u = U(L, W)
    if neg: u = NEGA(u)
    if nbarg is not None and not (neg and L == 0):      # written bit by bit: a few unknown bits
        keep = {0, 1, L // 2, L - 2} if L > 4 else set(range(4))
        u = tuple(l if l < 2 or i in keep else ((i * 5 + L) >> 1) & 1 for i, l in enumerate(u))
    ex = msb(u, n)
    if le: ex = le_order(ex, n)
    k = min(max(L - 1, 0) if pos % 3 else L // 2, n - 1)      # the second value differs in one bit, or not
    u2 = u[:k] + (fresh("w"),) + u[k + 1:]
    extra = [nbarg] if nbarg is not None else []
    def bs(m): return Ptr(m.o, 0)
    init = lambda m, det: [bs(m)] + extra + [det]
    P = lambda v: (lambda m, det, err: [m.st.F.N(simp(v)), bs(m)] + extra + [det, err])
    def isat(F, i):
        if i < 2: return 1
        return decide(F, F.eq(F.N(simp(u)), F.N(simp(u2)), W))
    return det_seq(c, nm, init, [P(u), P(u), P(u2)], n, pos, "%s%d bit value in %d bits at bit %d" % ("negative " if neg else "", L, n, pos),
                   lambda F, i: [F.L(l) for l in ex], None, isat)

def det_str(c, n, ln, pos):
    def few(j):
        b = list(tobv((0x41 + 11 * j) & 0x7F, 8)); b[j % 7] = fresh("c%d" % j)
        if ln < 3: b[(j + 3) % 7] = fresh("d%d" % j)
        if not any(l == 1 for l in b): b[6] = 1
        return tuple(b)
    cs = [few(j) for j in range(ln)]
    ds = [few(j) for j in range(ln)]
    lit = lambda v: [simp(x) for x in v] + [0]
    ex = [b for x in cs for b in list(reversed(x))[1:]][:7 * n] + [b for _ in range(n - ln) for b in lit_bits(0x20, 7)]
    def P(v):
        def f(m, det, err):
            for x in v: m.st.F.bound(x, 8, False, 1, 127)
            return [m.data(lit(v), "string"), Ptr(m.o, 0), n, det, err]
        return f
    def isat(F, i):
        if i < 2: return 1
        return 1 if all(decide(F, F.eq(F.N(simp(a)), F.N(simp(b)), 8)) for a, b in zip(cs, ds)) else 0
    return det_seq(c, "IA5String_FixSize", lambda m, det: [Ptr(m.o, 0), n, det], [P(cs), P(cs), P(ds)], 7 * n, pos, "%d of %d characters at bit %d" % (ln, n, pos),
                   lambda F, i: [F.L(l) for l in ex], None, isat)

def distance(c, fn, unit):
    out = []; n = 0
    if fn not in c.E.M.funcs: raise AnalysisError("operation %s is not defined in the runtime" % fn)
    ps = c.E.M.funcs[fn].params
    for a in (0, 3, 8, 15, 100):
        for d in (0, 1, 5, 8, 9, 16, 23, 1000):
            b = a + d
            m = Mach(c)
            if len(ps) == 4: args = [a // 8, a % 8, b // 8, b % 8]
            else: return [], 1
            m.st.user = {}
            m.E.call(m.st, fn, args)
            for s in m.E.run(m.st):
                n += 1
                if fault_of(s, fn, "%d..%d" % (a, b), out): continue
                want = (d + unit - 1) // unit
                if s.F.N(s.user["ret"]) != want: found(out, s.F, "value", fn, "distance of %d bits is %s" % (d, s.user["ret"]), "%d..%d" % (a, b))
    return out, n

# ============================================================ comparison and validity
def equal(g, enc_=True, dec_=True):
    W, D = g.W, g.deep
    for n in ((0, 1, 2, 3, 5) if D else (0, 1, 2, 4)):
        for n2 in sorted({n, n + 1, max(0, n - 1)}): g.add("OctetString_equal", eq_oct, n, n2)
    for n in (range(0, 20) if D else (0, 1, 3, 7, 8, 9, 15, 16, 17)):
        for n2 in sorted({n, n + 1, max(0, n - 1), n + 8}): g.add("BitString_equal", eq_bits, n, n2)
    for n in (8, 9, 17, 33, 130): 
        for n2 in (n, n + 1, n - 1): g.add("OctetString_equal", eq_oct, n, n2)
    for n in (32, 33, 63, 64, 65, 130, 515):
        for n2 in (n, n + 1, n - 1): g.add("BitString_equal", eq_bits, n, n2)
    for n in (0, 1, 2, 3, 20):
        for n2 in sorted({n, min(20, n + 1)}): g.add("ObjectIdentifier_equal", eq_oid, n, n2, W)
    for n in range(0, 4): g.add("ObjectIdentifier_isValid", valid_oid, "ObjectIdentifier_isValid", n, W); g.add("RelativeOID_isValid", valid_oid, "RelativeOID_isValid", n, W)
    for f in ("binarySearch", "linearSearch"):
        for n in (0, 1, 2, 3, 4, 5, 8, 13) + ((37,) if D else ()): g.add(f, search, f, n, W)

def run_plain(c, m, fn, args, label, out):
    """call without a stream; yields the states"""
    if fn not in c.E.M.funcs: raise AnalysisError("operation %s is not defined in the runtime" % fn)
    F = c.E.M.funcs[fn]
    if len(F.params) != len(args): raise AnalysisError("operation %s takes %d arguments, expected %d" % (fn, len(F.params), len(args)))
    m.st.user = {}
    before = {p.o: list(m.st.mem[p.o].cells) for p in args if isinstance(p, Ptr)}
    c.E.call(m.st, fn, [a & ((1 << t.w) - 1) if isinstance(a, int) else a for (t, _), a in zip(F.params, args)])
    for s in c.E.run(m.st):
        if fault_of(s, fn, label, out): continue
        for o, cl in before.items():
            if s.mem[o].cells != cl: found(out, s.F, "input", fn, "modifies '%s'" % s.mem[o].name, label)
        yield s

def verdict(out, s, fn, label, ref, w=8, nz=False):
    for f, want in by_spec(s.F, ref):
        r = f.N(s.user["ret"])
        if nz:
            z = f.L(f.eq(r, 0, w))
            ok = z == (0 if want else 1)
        else: ok = same(f, r, want, w)
        if not ok: found(out, f, "value", fn, "answers %s instead of %s" % (show(f, r, w), want), label, vneq(r, want, w) if not nz else None, (r,))

def eq_oct(c, n, n2):
    out = []; k = 0; fn = "OctetString_equal"; label = "%d and %d octets" % (n, n2)
    m = Mach(c); a, b = chars(n), chars(n2)
    for s in run_plain(c, m, fn, [n, n2, m.data([simp(x) for x in a], "first"), m.data([simp(x) for x in b], "second")], label, out):
        k += 1
        verdict(out, s, fn, label, lambda F: int(n == n2 and all(decide(F, F.eq(F.N(simp(x)), F.N(simp(y)), 8)) for x, y in zip(a, b))))
    return out, k

def eq_bits(c, n, n2):
    out = []; k = 0; fn = "BitString_equal"; label = "%d and %d bits" % (n, n2)
    m = Mach(c)
    a, b = ([tuple(fresh_bits("x", 8)) for _ in range((q + 7) // 8)] for q in (n, n2))
    fl = lambda v, q: [l for y in v for l in reversed(y)][:q]
    for s in run_plain(c, m, fn, [n, n2, m.data(list(a), "first"), m.data(list(b), "second")], label, out):
        k += 1
        def ref(F):
            if n != n2: return 0
            x, y = fl(a, n), fl(b, n)
            for i in range(0, n, 8):
                p, q = tuple(x[i:i + 8]), tuple(y[i:i + 8])
                if not decide(F, F.eq(F.N(simp(p)), F.N(simp(q)), len(p))): return 0
            return 1
        verdict(out, s, fn, label, ref)
    return out, k

def eq_oid(c, n, n2, W):
    out = []; k = 0; fn = "ObjectIdentifier_equal"; label = "%d and %d components" % (n, n2)
    m = Mach(c); a = [fresh_bits("x", W) if n < 5 or i % 9 == 4 else (0,) * W for i in range(n)]; b = [fresh_bits("y", W) if n < 5 or i % 9 == 4 else (0,) * W for i in range(n2)]
    for s in run_plain(c, m, fn, [oid_obj(m, [simp(x) for x in a], n, W), oid_obj(m, [simp(x) for x in b], n2, W)], label, out):
        k += 1
        verdict(out, s, fn, label, lambda F: int(n == n2 and all(decide(F, F.eq(F.N(simp(x)), F.N(simp(y)), W)) for x, y in zip(a, b))))
    return out, k

def valid_oid(c, fn, n, W):
    out = []; k = 0; label = "%d components" % n
    m = Mach(c); a = [fresh_bits("x", W) for i in range(n)]
    cells = a + [(0,) * W] * (2 - n if n < 2 else 0)
    for s in run_plain(c, m, fn, [oid_obj(m, [simp(x) for x in cells], n, W)], label, out):
        k += 1
        def ref(F):
            if fn[0] == "R": return int(n > 0)
            return int(n >= 2 and not decide(F, F.lt(2, F.N(simp(a[0])), W, False)) and not decide(F, F.lt(39, F.N(simp(a[1])), W, False)))
        verdict(out, s, fn, label, ref)
    return out, k

def search(c, fn, n, W):
    out = []; k = 0; label = "%d elements" % n
    m = Mach(c); M = (1 << W) - 1
    vals = [(-7 + 5 * i * i) & M for i in range(n)]
    v = fresh_bits("v", W)
    arr = m.E.obj(m.st, max(n, 0) * W // 8, "table", [None] * (n * W // 8))
    for i, x in enumerate(vals): m.E.store(m.st, Ptr(arr, i * W // 8), x, W // 8, W)
    for s in run_plain(c, m, fn, [Ptr(arr, 0), n, simp(v)], label, out):
        k += 1
        def ref(F):
            for i, x in enumerate(vals):
                if decide(F, F.eq(F.N(simp(v)), x, W)): return i
            return 0xFFFFFFFF
        verdict(out, s, fn, label, ref, 32)
    return out, k

GENS = {"strings": strings, "octets": octets, "bitstr": bitstr, "bitops": bitops, "oids": oids, "reals": reals, "dets": dets, "equal": equal}
