"""BER and XER primitives of the C runtime: what they write and accept (BER), where they may read and write (both)."""
from cspec import *
from cspec2 import chars, bits_of, Flag, bounded_len
import struct

# models of the C library, interpreted like the runtime itself
LIBC = r'''
#include <stddef.h>
#include <stdio.h>
#include "asn1crt_encoding_xer.h"
#undef getc
#undef feof
/* a file of known length: vf_load hands it to the function under analysis */
static const unsigned char *vf_fp; static long vf_fn, vf_fi; static int vf_fopen;
FILE *fopen(const char *n, const char *m) { (void)n; (void)m; vf_fi = 0; vf_fopen = vf_fp != 0; return vf_fp ? (FILE*)&vf_fi : (FILE*)0; }
int fclose(FILE *f) { (void)f; vf_fopen = 0; return 0; }
int fgetc(FILE *f) { (void)f; return vf_fi < vf_fn ? vf_fp[vf_fi++] : -1; }
int getc(FILE *f) { return fgetc(f); }
int feof(FILE *f) { (void)f; return vf_fi >= vf_fn; }
int ungetc(int c, FILE *f) { (void)f; if (c >= 0 && vf_fi > 0) vf_fi--; return c; }
size_t fread(void *d, size_t z, size_t n, FILE *f) { size_t i; int c; if (z != 1) __builtin_trap(); for (i = 0; i < n && (c = fgetc(f)) >= 0; i++) ((unsigned char*)d)[i] = (unsigned char)c; return i; }
int fseek(FILE *f, long o, int w) { (void)f; vf_fi = w == SEEK_SET ? o : w == SEEK_CUR ? vf_fi + o : vf_fn + o; return 0; }
long ftell(FILE *f) { (void)f; return vf_fi; }
flag LoadXmlFile(const char *fileName, ByteStream *pStrm, int *nBytesLoaded);
flag vf_load(ByteStream *s, const char *name, int *n, const unsigned char *p, long len, int *open) { flag r; vf_fp = p; vf_fn = len; vf_fopen = 0; r = LoadXmlFile(name, s, n); *open = vf_fopen; return r; }
extern unsigned long long vf_intnum(const char *s, const char *e, int sg);
extern double vf_realnum(const char *s, const char *e);
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
static int dig(char c) { return c >= '0' && c <= '9'; }
static int spc(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long long num(const char *s, char **e, int sg) {
  const char *p = s, *q;
  while (spc(*p)) p++;
  q = p;
  if (*p == '+' || *p == '-') p++;
  if (!dig(*p)) { if (e) *e = (char*)s; return 0; }
  while (dig(*p)) p++;
  if (e) *e = (char*)p;
  return vf_intnum(q, p, sg);
}
unsigned long long strtoull(const char *s, char **e, int b) { (void)b; return num(s, e, 0); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) { (void)b; return (long long)num(s, e, 1); }
long strtol(const char *s, char **e, int b) { (void)b; return (long)num(s, e, 1); }
long long atoll(const char *s) { return (long long)num(s, 0, 1); }
long atol(const char *s) { return (long)num(s, 0, 1); }
int atoi(const char *s) { return (int)num(s, 0, 1); }
double strtod(const char *s, char **e) { const char *q; while (spc(*s)) s++; q = s; while (*s == '+' || *s == '-' || *s == '.' || dig(*s) || (*s | 32) == 'e' || (*s | 32) == 'i' || (*s | 32) == 'n' || (*s | 32) == 'f' || (*s | 32) == 'a' || (*s | 32) == 'x') s++; if (e) *e = (char*)s; return vf_realnum(q, s); }
double atof(const char *s) { return strtod(s, 0); }
'''

def known_text(E, st, p, q):
    r = ""
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o and isinstance(p.off, int) and isinstance(q.off, int)): return None
    for k in range(p.off, q.off):
        x = st.F.N(E.load(st, Ptr(p.o, k), 1, 8))
        if not isinstance(x, int): return None
        r += chr(x)
    return r
def b_num(E, st, fr, a, ins):
    """the value of a known number (clamped the way the C library does), any value for an unknown one"""
    t = known_text(E, st, a[0][1], a[1][1])
    sg = st.F.N(a[2][1])
    if t is None or not isinstance(sg, int): return fresh_bits("any", 64)
    v = int(t)
    if sg & 1: return max(-2 ** 63, min(2 ** 63 - 1, v)) & (2 ** 64 - 1)
    return 2 ** 64 - 1 if abs(v) >= 2 ** 64 else v & (2 ** 64 - 1)
def b_real(E, st, fr, a, ins):
    t = known_text(E, st, a[0][1], a[1][1])
    try: return struct.unpack(">Q", struct.pack(">d", float(t)))[0] if t is not None else fresh_bits("any", 64)
    except ValueError: return fresh_bits("any", 64)

def b_snprintf(E, st, fr, a, ins):
    """any text of the greatest length the format can give"""
    d, n, f = a[0][1], st.F.N(a[1][1]), a[2][1]
    if not isinstance(n, int): raise Event("oob", "snprintf with an unknown size")
    fmt = ""
    k = 0
    while True:
        c = E.load(st, Ptr(f.o, f.off + k), 1, 8)
        if not isinstance(c, int): raise Event("uninit", "format text is unknown")
        if c == 0: break
        fmt += chr(c); k += 1
    if fmt == "%02X" and n >= 3 and st.F.rng(st.F.N(a[3][1]), 32, False)[1] < 256: return b_hex(E, st, d, a[3][1])
    size = 0; args = list(a[3:])
    kn = exact_text(E, st, fmt, args) if n else None
    if kn is not None:
        for i, ch in enumerate(kn[:n - 1] + "\0"): E.store(st, Ptr(d.o, d.off + i), ord(ch), 1, 8)
        return len(kn)
    for lit, flags, width, prec, ln, cv in re.findall(r"([^%]+)|%([-+ #0]*)(\d*)(\.\d+)?(hh|h|ll|l|z|j)?([a-zA-Z%])", fmt):
        if lit: size += len(lit); continue
        if cv == "%": size += 1; continue
        t, v = args.pop(0)
        w = int(width or 0)
        if cv in "di": size += max(w, 20 if t.w == 64 else 11)
        elif cv == "u": size += max(w, 20 if t.w == 64 else 10)
        elif cv in "xX":
            h = st.F.rng(st.F.N(v), t.w, False)[1]
            size += max(w, (h.bit_length() + 3) // 4, 1)
        elif cv in "gGeE": size += max(w, int((prec or ".6")[1:]) + 8)
        elif cv == "f":
            x = st.F.N(v)
            size += max(w, int((prec or ".6")[1:]) + 3)       # the caller scales the number below 10 first
        elif cv == "c": size += 1
        elif cv == "s": size += max(w, len(c_text(E, st, v)))
        else: raise Budget("snprintf conversion %r" % cv, "imprecise")
    m = min(size, n - 1) if n else 0
    for i in range(m): E.store(st, Ptr(d.o, d.off + i), simp(fresh_bits("txt", 5) + (1, 0, 0)), 1, 8)
    if n: E.store(st, Ptr(d.o, d.off + m), 0, 1, 8)
    return size
def c_text(E, st, p):
    """the octets of a C string; an octet that is not known to be zero or not splits the case"""
    r = []
    while True:
        x = st.F.N(E.load(st, Ptr(p.o, p.off + len(r)), 1, 8))
        if isinstance(x, int) and not x: return r
        if not isinstance(x, int):
            bs = [st.F.L(b) for b in st.F.bits(x, 8)]
            if not any(b == 1 for b in bs): raise NeedBit(next(b for b in bs if b > 1))
        r.append(x)
def exact_text(E, st, fmt, args):
    """the text of known numbers, None if one is unknown"""
    out = ""; args = list(args)
    for lit, flags, width, prec, ln, cv in re.findall(r"([^%]+)|%([-+ #0]*)(\d*)(\.\d+)?(hh|h|ll|l|z|j)?([a-zA-Z%])", fmt):
        if lit: out += lit; continue
        if cv == "%": out += "%"; continue
        if not args: return None
        t, v = args.pop(0)
        if cv == "s":
            t = c_text(E, st, v)
            if not all(isinstance(x, int) for x in t): return None
            out += ("%" + flags + width + (prec or "") + "s") % "".join(map(chr, t)); continue
        v = st.F.N(v)
        if not isinstance(v, int): return None
        if cv in "di": v = sgn(v, t.w)
        elif cv in "geEfG":
            if t.k != "fp": return None
            v = tof(v, t.w)
        elif cv not in "uxXc": return None
        out += ("%" + flags + width + (prec or "") + ("d" if cv in "iu" else cv)) % (v & 255 if cv == "c" else v)
    return out
def b_hex(E, st, d, v):
    """two upper-case hexadecimal digits, exactly"""
    v = st.F.N(v)
    r = []
    for sh in (4, 0):
        nib = [st.F.L(b) for b in st.F.bits(v, 32)[sh:sh + 4]]
        if nib[3] > 1: raise NeedBit(nib[3])
        if nib[3] == 0: r.append(simp(tuple(nib[:3]) + (0, 1, 1, 0, 0))); continue
        for b in (2, 1):
            if nib[b] > 1: raise NeedBit(nib[b])
        if not nib[2] and not nib[1]: r.append(simp((nib[0], 0, 0, 1, 1, 1, 0, 0))); continue
        if nib[0] > 1: raise NeedBit(nib[0])
        r.append(ord("%X" % (8 + 4 * nib[2] + 2 * nib[1] + nib[0])))
    for i, x in enumerate(r + [0]): E.store(st, Ptr(d.o, d.off + i), x, 1, 8)
    return 2
OVER = {"snprintf": b_snprintf, "vf_intnum": b_num, "vf_realnum": b_real}

class GenY(Gen):
    def pos(self, k=2):
        self.i += 1
        return (0, 16, 24) if self.deep else (0,) if self.i % 2 else (24,)
GenY.enc1 = staticmethod(lambda *a: enc1(*a, mach=ByteMach))
GenY.dec1 = staticmethod(lambda *a: dec1(*a, mach=ByteMach))

TAGS = (0x02, 0xA5, 0x7F21, 0x9F8101, 0x5FBF8101, 0x01)
def tagbits(t): return lit_bits(t, 8 * max(1, (t.bit_length() + 7) // 8))
def lenbits(n):
    if n <= 0x7F: return lit_bits(n, 8)
    k = (n.bit_length() + 7) // 8
    return lit_bits(0x80 | k, 8) + lit_bits(n, 8 * k)

def s_tag(F, rd, t):
    w = tagbits(t)
    r = rd.take(len(w))
    for i, (b, x) in enumerate(zip(r, w)):
        if i != 2 and decide(F, b) != x: raise SpecFail("another tag")         # primitive/constructed is not compared
def s_len(F, rd):
    r = rd.take(8)
    if not decide(F, r[0]): return F.N(simp(tuple(reversed(r[1:])) + (0,) * 25))
    k = conc(F, simp(tuple(reversed(r[1:])) + (0,)), 8)
    if k == 0: return 0xFFFFFFFF
    if k > 4: raise SpecFail("length beyond the native range")
    b = rd.take(8 * k)
    if k == 4 and decide(F, b[0]): raise SpecFail("length beyond the native range")
    return F.N(simp(tuple(reversed(b)) + (0,) * (32 - 8 * k)))
def s_count(F, rd, lo=0, hi=None):
    n = s_len(F, rd)
    if n == 0xFFFFFFFF: raise SpecFail("indefinite length of a primitive value")
    if hi is not None:
        if decide(F, F.lt(hi, n, 32, False)): raise SpecFail("length beyond the native integer")
    elif decide(F, F.lt(rd.left() // 8, n, 32, False)): raise SpecFail("truncated")
    n = conc(F, n, 32)
    if n < lo: raise SpecFail("length below the minimum")
    return n
def octet(F, rd): return F.N(simp(tuple(reversed(rd.take(8)))))

class OutInt(Data):
    def __init__(self): Data.__init__(self, [None] * 4, "error code")
def content(cs): return [b for c in cs for b in bits_of(c)]

def noroom(c, fn, args, need, pos, cap):
    """a buffer with too little room: reported, and nothing outside"""
    out = []
    m = ByteMach(c)
    m.buf(cap); bs = m.bs(pos)
    a = [bs] + [realise(m, x) for x in args()]
    b0 = list(m.cells0)
    np_ = 0
    for s in m.run(fn, a):
        np_ += 1
        label = "%d bytes at %d of a buffer of %d" % (need, pos // 8, cap)
        if fault_of(s, fn, label, out): continue
        r = s.F.N(s.user.get("ret"))
        if r != 0: found(out, s.F, "ret", fn, "reports success although the value does not fit", label)
        if isinstance(r, int): errcode(out, s, s.F, fn, r & 1, label)
        if s.mem[m.b].cells[:pos // 8] != b0[:pos // 8]: found(out, s.F, "neigh", fn, "changes bytes before the position", label)
    return out, np_

def ber(g, enc_=True, dec_=True):
    W, D = g.W, g.deep; WB = W // 8
    out = [("err", 4)]
    def E(fn, mk, bits, args, label="", **kw):
        g.e(fn, mk, bits, (lambda v: args(v) + [OutInt()]), 2, retflag=1, label=label, **kw)
    def N(fn, args, need):
        for p in g.pos():
            for cap in sorted({0, 1, need // 2, need - 1}):
                if 0 <= cap < need and need < 400: g.add(fn, noroom, fn, (lambda: args() + [OutInt()]), need, p, p // 8 + cap)
    if enc_:
        for t in (0,) + TAGS:
            E("BerEncodeTag", (lambda: None), (lambda v, t=t: tagbits(t)), (lambda v, t=t: [t]), "tag %#x" % t)
            N("BerEncodeTag", (lambda t=t: [t]), len(tagbits(t)) // 8)
            E("BerEncodeNull", (lambda: None), (lambda v, t=t: tagbits(t) + [0] * 8), (lambda v, t=t: [t]), "tag %#x" % t)
            for f in (0, 1): E("BerEncodeBoolean", (lambda f=f: f), (lambda v, t=t: tagbits(t) + [0] * 7 + [1] + [v] * 8), (lambda v, t=t: [t, v]), "tag %#x, %d" % (t, f))
            N("BerEncodeNull", (lambda t=t: [t]), len(tagbits(t)) // 8 + 1)
            N("BerEncodeBoolean", (lambda t=t: [t, 1]), len(tagbits(t)) // 8 + 2)
        E("BerEncodeLengthStart", (lambda: None), (lambda v: lit_bits(0x80, 8)), (lambda v: []))
        E("BerEncodeLengthEnd", (lambda: None), (lambda v: [0] * 16), (lambda v: []))
        N("BerEncodeLengthEnd", (lambda: []), 2); N("BerEncodeLengthStart", (lambda: []), 1)
        for L in range(W):
            for neg in (0, 1):
                t = TAGS[(L + neg) % 3]
                E("BerEncodeInteger", (lambda L=L, neg=neg: NEGA(U(L, W)) if neg else U(L, W)), (lambda v, L=L, t=t: tagbits(t) + lit_bits(slen(L), 8) + msb(v + (v[-1],) * 8, 8 * slen(L))), (lambda v, t=t: [t, val(v)]), "%s%d bits" % ("negative " if neg else "", L))
            if L % 13 == 0 or D: N("BerEncodeInteger", (lambda L=L: [2, val(U(L, W))]), 2 + slen(L))
        for n in (0, 1, 2, 3, 127, 128, 255, 256) + ((65535, 65536) if D else ()):
            mk = (lambda n=n: chars(n)) if n < 10 else (lambda n=n: [(i * 37 + 5) & 0xFF for i in range(n)])
            for fn in ("BerEncodeOctetString", "BerEncodeIA5String"):
                t = TAGS[n % 3]
                E(fn, mk, (lambda cs, t=t: tagbits(t) + lenbits(len(cs)) + content(cs)), (lambda cs, t=t: [t, Data(cs, "octets"), len(cs)]), "%d octets" % n)
                N(fn, (lambda mk=mk, n=n, t=t: [t, Data(mk(), "octets"), n]), len(tagbits(t) + lenbits(n)) // 8 + n)
            for k in (0, 1, 7):
                bc = 8 * n - k
                if bc < 0: continue
                E("BerEncodeBitString", mk, (lambda cs, k=k: tagbits(3) + lenbits(len(cs) + 1) + lit_bits(k, 8) + content(cs)), (lambda cs, bc=bc: [3, Data(cs, "bits"), bc]), "%d bits" % bc)
                N("BerEncodeBitString", (lambda mk=mk, bc=bc: [3, Data(mk(), "bits"), bc]), len(lenbits(n + 1)) // 8 + 2 + n)
        def db(x): return struct.unpack(">Q", struct.pack(">d", x))[0]
        for x, by in ((0.0, [0]), (float("inf"), [1, 0x40]), (float("-inf"), [1, 0x41]), (1.0, [3, 0x80, 0, 1]), (-1.5, [3, 0xC0, 255, 3]), (1e300, None), (-3.5e-310, None)):
            if by is not None: E("BerEncodeReal", (lambda x=x: db(x)), (lambda v, by=by: tagbits(9) + content(by)), (lambda v: [9, v]), repr(x)) if len(by) < 3 else None
            N("BerEncodeReal", (lambda x=x: [9, db(x)]), 2 if by is None else len(by) + 1)
        for e in (1, 500, 1023, 1075, 2046):
            for sg in (0, 1):
                ex = e - 1075; k = slen((ex if ex >= 0 else -ex - 1).bit_length())
                def bits(v, ex=ex, k=k, sg=sg): return tagbits(9) + lit_bits(1 + k + 7, 8) + lit_bits(0x80 | sg << 6 | (k - 1), 8) + lit_bits(ex & ((1 << (8 * k)) - 1), 8 * k) + list(reversed(v[:52] + (1, 0, 0, 0)))
                E("BerEncodeReal", (lambda e=e, sg=sg: fresh_bits("m", 52) + tuple(reversed(lit_bits(e, 11))) + (sg,)), bits, (lambda v: [9, val(v)]), "exponent field %d" % e)
    if dec_:
        def Dd(fn, outs, spec, args, nbits, label="", **kw):
            g.d(fn, outs + [("err", 4)], spec, (lambda *o: args(*o[:-1]) + [o[-1]]), nbits, 1, label, **kw)
        for t in (0,) + TAGS:
            tb = len(tagbits(t))
            Dd("BerDecodeTag", [], (lambda F, rd, t=t: (s_tag(F, rd, t), {})[1]), (lambda t=t: [t]), tb, "tag %#x" % t)
            g.d("NextTagMatches", [], (lambda F, rd, t=t: (s_tag(F, rd, t), setattr(rd, "p", rd.p0), {})[2]), (lambda t=t: [t]), tb, 1, "tag %#x" % t)
            def snull(F, rd, t=t):
                s_tag(F, rd, t)
                n = s_len(F, rd)
                if n == 0xFFFFFFFF or not decide(F, F.eq(n, 0, 32)): raise SpecFail("length of NULL")
                return {}
            Dd("BerDecodeNull", [], snull, (lambda t=t: [t]), tb + 8, "tag %#x" % t)
            def sbool(F, rd, t=t):
                s_tag(F, rd, t)
                n = s_len(F, rd)
                if n == 0xFFFFFFFF or not decide(F, F.eq(n, 1, 32)): raise SpecFail("length of BOOLEAN")
                return {"v": [Flag(F.L(F.eq(octet(F, rd), 0, 8)) ^ 1)]}
            Dd("BerDecodeBoolean", [("v", 1)], sbool, (lambda v, t=t: [t, v]), tb + 16, "tag %#x" % t)
        g.d("LA_Next_Two_Bytes_00", [], (lambda F, rd: (two0(F, rd), setattr(rd, "p", rd.p0), {})[2]), (lambda: []), 16, 2)
        def two0(F, rd):
            if not decide(F, F.eq(octet(F, rd), 0, 8)) or not decide(F, F.eq(octet(F, rd), 0, 8)): raise SpecFail("not the end of contents")
        Dd("BerDecodeTwoZeroes", [], (lambda F, rd: (two0(F, rd), {})[1]), (lambda: []), 16)
        Dd("BerDecodeLength", [("v", 4)], (lambda F, rd: {"v": (s_len(F, rd), 32)}), (lambda v: [v]), 40)
        for k in (5, 8, 9, 127):
            Dd("BerDecodeLength", [("v", 4)], (lambda F, rd: {"v": (s_len(F, rd), 32)}), (lambda v: [v]), 8 * (k + 1), "%d length octets" % k, cells=lambda p, nb, k=k: place(p, nb, lit_bits(0x80 | k, 8)), lead=False, cuts="few")
        for t in TAGS[:3]:
            tb = len(tagbits(t))
            pl = lambda bits, t=t: (lambda p, nb: place(p, nb, tagbits(t) + bits))
            def sint(F, rd, t=t):
                s_tag(F, rd, t)
                n = s_count(F, rd, 1, WB)
                b = tuple(reversed(rd.take(8 * n)))
                return {"v": (F.N(simp(b + (b[-1],) * (W - 8 * n))), W)}
            Dd("BerDecodeInteger", [("v", WB)], sint, (lambda v, t=t: [t, v]), tb + 8 + W, "tag %#x" % t, cuts=None if t == 2 else "few")
            for hdr in ([0x80], [0x81, 0], [0x81, WB], [0x84, 0, 0, 0, 1], [0x84, 0x80, 0, 0, 0], [0x84, 255, 255, 255, 255], [0x84, 0x7F, 255, 255, 255], [0x85, 0, 0, 0, 0, 1], [WB + 1], [127]):
                Dd("BerDecodeInteger", [("v", WB)], sint, (lambda v, t=t: [t, v]), tb + 8 * len(hdr) + 8 * (WB + 2), "length octets %s" % hdr, cells=pl(content(hdr)), lead=False, cuts="few")
            for mx in (0, 1, 3, 20, 127, 200, 300):
                def soct(F, rd, t=t, mx=mx):
                    s_tag(F, rd, t)
                    n = s_count(F, rd)
                    by = [octet(F, rd) for _ in range(n)]
                    return {"n": (min(n, mx), 32), "a": (by + [0] * mx)[:mx]}
                def sstr(F, rd, t=t, mx=mx):
                    s_tag(F, rd, t)
                    n = s_count(F, rd)
                    by = [octet(F, rd) for _ in range(n)]
                    return {"a": (by + [0] * mx)[:mx]}
                def sbit(F, rd, t=t, mx=mx, k=0):
                    s_tag(F, rd, t)
                    n = s_count(F, rd, 1)
                    un = conc(F, octet(F, rd), 8)
                    if un > 7 or (n == 1 and un): raise SpecFail("unused bits")
                    by = [octet(F, rd) for _ in range(n - 1)]
                    if n - 1 > mx: un = 0
                    return {"n": (min(8 * min(n - 1, mx) - un, 8 * mx - k), 32), "a": by[:mx]}
                if mx > 3:
                    for n in sorted({mx, mx - 7, 130} if mx >= 130 else {mx, mx - 3}):
                        for f, sp, k in (("BerDecodeOctetString", soct, n), ("BerDecodeBitString", sbit, n + 1), ("BerDecodeIA5String", sstr, n)):
                            fl = lenbits(k) + (lit_bits(3, 8) if k > n else []) + content([(i * 37 + 9) & 0xFF for i in range(n)])
                            a = [("a", mx)] + ([] if f.endswith("IA5String") else [("n", 4)])
                            Dd(f, a, sp, ((lambda a, t=t, mx=mx: [t, a, mx]) if len(a) == 1 else (lambda a, n, t=t, m=mx if k == n else 8 * mx: [t, a, n, m])), tb + len(fl), "%d of at most %d octets" % (n, mx), cells=pl(fl), lead=False, cuts="few")
                    continue
                for hdr in (None, [0x80], [0x81, 2], [0x84, 0x80, 0, 0, 0], [0x84, 255, 255, 255, 255], [0x84, 0x7F, 255, 255, 255], [0x85, 0, 0, 0, 0, 1], [127], [2], [mx + 1]):
                    kw = dict(cells=pl(content(hdr)), lead=False, cuts="few") if hdr else dict(cells=pl([]), lead=False)
                    nb = tb + 8 * (len(hdr) if hdr else 1) + 8 * (mx + 2)
                    lb = "at most %d octets, length octets %s" % (mx, hdr)
                    Dd("BerDecodeOctetString", [("a", mx), ("n", 4)], soct, (lambda a, n, t=t, mx=mx: [t, a, n, mx]), nb, lb, **kw)
                    Dd("BerDecodeIA5String", [("a", mx)], sstr, (lambda a, t=t, mx=mx: [t, a, mx]), nb, lb, **kw)
                    Dd("BerDecodeBitString", [("a", mx), ("n", 4)], sbit, (lambda a, n, t=t, mx=mx: [t, a, n, 8 * mx]), nb + 8, lb, **kw)
                    if mx and hdr in (None, [mx + 1]):         # a capacity that ends inside an octet, or no interest in the count
                        for k in (1, 7): Dd("BerDecodeBitString", [("a", mx), ("n", 4)], (lambda F, rd, f=sbit, k=k: f(F, rd, k=k)), (lambda a, n, t=t, mx=mx, k=k: [t, a, n, 8 * mx - k]), nb + 8, lb + ", capacity less %d bits" % k, **kw)
                        Dd("BerDecodeBitString", [("a", mx)], (lambda F, rd, f=sbit: {"a": f(F, rd)["a"]}), (lambda a, t=t, mx=mx: [t, a, 0, 8 * mx]), nb + 8, lb + ", no count", **kw)
                        Dd("BerDecodeOctetString", [("a", mx)], (lambda F, rd, f=soct: {"a": f(F, rd)["a"]}), (lambda a, t=t, mx=mx: [t, a, 0, mx]), nb, lb + ", no count", **kw)
        def sreal(F, rd):
            s_tag(F, rd, 9)
            n = conc(F, rd.u(8, 32), 32)
            if n == 0: return {"v": (0, 64)}
            h = conc(F, rd.u(8, 32), 32)
            if h in (0x40, 0x41): return {"v": ({0x40: 0x7FF << 52, 0x41: 0xFFF << 52}[h], 64)}
            el = (h & 3) + 1
            if el > n - 1: raise SpecFail("exponent longer than the value")
            rd.take(8 * (n - 1))
            return {"v": (None, 64)}
        for by in ([0], [1, 0x40], [1, 0x41], [3, 0x80, 0, 1], [3, 0xC0, 255, 3], [9, 0x80, 5], [2, 0x81, 3], [5, 0x81, 3, 0, 1, 1], [200, 0x80, 0], [127, 0x80, 0]):
            Dd("BerDecodeReal", [("v", 8)], sreal, (lambda v: [9, v]), 8 + 8 * max(len(by), 1 + by[0] if by[0] < 20 else 6), "octets %s" % by, cells=lambda p, nb, by=by: place(p, nb, tagbits(9) + content((by + [0] * 16))), lead=False)


# ============================================================ XER
def text(s): return [ord(ch) for ch in s] + [0]
def S(s): return Data(text(s), "text")
OIDMAX = 20

class WhiteMach(ByteMach):
    white = 1

def xdec(c, fn, cells, outs, args, chk, label, want=None, end=None):
    """a decoder over the given octets (None: unknown): no access outside its objects, the reported counts stay within the destination;
    what chk(F, ok, get) requires of the outputs; want: 0 incomplete text (must be rejected), 1 well-formed text (must be accepted, position at end)"""
    out = []
    m = ByteMach(c)
    cl = [simp(tuple(reversed(fresh_bits("i%d" % i, 8)))) if x is None else x if isinstance(x, int) else simp(tuple(x)) for i, x in enumerate(cells)]
    m.buf(len(cl), cl, "input")
    bs = m.bs(0)
    o = {n: m.out(sz, n) for n, sz in outs}
    a = [bs] + [realise(m, x) for x in args(*[o[n] for n, _ in outs])]
    c0 = list(m.cells0)
    np_ = 0
    for s in m.run(fn, a):
        np_ += 1
        if fault_of(s, fn, label, out): continue
        F = s.F
        r = s.user.get("ret")
        if r is UNDEF or r is None: found(out, F, "init", fn, "returns an undefined result", label); continue
        if s.mem[m.b].cells != c0: found(out, F, "input", fn, "modifies its input", label)
        def get(name, off=0, sz=4):
            p = o[name]
            if any(x is None for x in s.mem[p.o].cells[off:off + sz]): return UNDEF
            return F.N(c.E.load(s, Ptr(p.o, off), sz, 8 * sz))
        r = F.N(r)
        for ok in ((r & 1,) if isinstance(r, int) else (0, 1)):
            f = F
            if not isinstance(r, int):
                f = F.copy()
                if not f.try_assign(f.L(r[0]) ^ (1 - ok)): continue
            errcode(out, s, f, fn, ok, label)
            if want == 3 and ok: found(out, f, "accept", fn, "accepts another element or contents the type does not have", label)
            if want == 2 and ok: found(out, f, "accept", fn, "takes it for the element asked for", label)
            if want == 2 and not ok and m.posof(s) != 8 * end: found(out, f, "pos", fn, "moves the position although the element is another", label)
            if want == 0 and ok: found(out, f, "trunc", fn, "accepts an incomplete text", label)
            if want == 1 and not ok: found(out, f, "reject", fn, "rejects a well-formed text", label)
            if want == 1 and ok and m.posof(s) != 8 * (len(cells) if end is None else end): found(out, f, "pos", fn, "stops at octet %s" % (m.posof(s) // 8 if isinstance(m.posof(s), int) else "?"), label)
            if chk:
                for tag, msg in chk(f, ok, get): found(out, f, tag, fn, msg, label)
    return out, np_

def xenc(c, fn, args, white, cap, pos, want, label, sym=None):
    """an encoder in a buffer of `cap` octets: nothing outside it is touched; success only with the whole text in it, failure only without room"""
    out = []
    m = (WhiteMach if white else ByteMach)(c)
    m.buf(cap)
    bs = m.bs(8 * pos)
    if cap == 0: m.n = 0
    al = [realise(m, x) for x in args()]
    a = [bs] + al
    b0 = list(m.cells0)
    before = {p.o: list(m.st.mem[p.o].cells) for p in al if isinstance(p, Ptr) and m.st.mem[p.o].name != "error code"}
    np_ = 0
    for s in m.run(fn, a):
        np_ += 1
        if fault_of(s, fn, label, out): continue
        F = s.F
        r = s.user.get("ret")
        q = m.posof(s)
        if not isinstance(q, int) or q > 8 * cap: found(out, F, "pos", fn, "the position leaves the buffer", label); continue
        if s.mem[m.b].cells[:pos] != b0[:pos]: found(out, F, "neigh", fn, "changes octets before the position", label)
        for oid, cells in before.items():
            if s.mem[oid].cells != cells: found(out, F, "input", fn, "modifies its input object '%s'" % s.mem[oid].name, label)
        if fn.endswith("XmlHeader"): r = 1 if q > 8 * pos else 0
        if r is UNDEF or r is None: found(out, F, "init", fn, "returns an undefined result", label); continue
        r = F.N(r)
        if isinstance(r, int): errcode(out, s, F, fn, r & 1, label)
        if want is None or not isinstance(r, int): continue
        if r & 1:
            if q != 8 * (pos + len(want)): found(out, F, "bits", fn, "writes %s octets instead of %d" % (q // 8 - pos, len(want)), label); continue
            for i, w in enumerate(want):
                got = F.N(c.E.load(s, Ptr(m.b, pos + i), 1, 8))
                if w is not None and not same(F, got, w, 8):
                    found(out, F, "bits", fn, "octet %d is %s, expected %s" % (i, show(F, got, 8), show(F, w, 8)), label, vneq(got, w, 8), (got, w)); break
        elif cap > pos + len(want) + 1: found(out, F, "reject", fn, "fails although the text fits", label)
    return out, np_

DOCS = ("<ab>12</ab>", "<ab/>", " <ab >\n1</ab >", "<!--c--><ab>1</ab>", "<?x?> <ab/>")
def xer(g, enc_=True, dec_=True):
    D, W = g.deep, g.W; WB = W // 8
    E4 = ("err", 4)
    J = lambda fn, cells, outs, args, chk=None, label="", want=None, end=None: g.add(fn, xdec, fn, cells, outs, args, chk, label, want, end)
    def le(name, off, most):
        def chk(F, ok, get):
            v = get(name, off)
            if ok and v is UNDEF: return [("undef", "reports success without the count")]
            if v is UNDEF: return []
            l = F.L(F.lt(most, v, 32, False))
            return [] if l == 0 else [("count", "reports %s items of at most %d" % (show(F, v, 32), most))]
        return chk
    def defd(name, sz): return lambda F, ok, get: [("undef", "reports success without defining %s" % name)] if ok and get(name, 0, sz) is UNDEF else []
    AT = 20 * 150 + 4
    if dec_:
        def attrs(m_): return m_
        ops = [("Xer_DecodeNull", [("v", 1), E4], (lambda v, e: [S("ab"), v, e]), defd("v", 1), DOCS),
               ("Xer_DecodeInteger", [("v", WB), E4], (lambda v, e: [S("ab"), v, e]), defd("v", WB), DOCS + ("<ab>-7 </ab>",)),
               ("Xer_DecodePosInteger", [("v", WB), E4], (lambda v, e: [S("ab"), v, e]), defd("v", WB), DOCS),
               ("Xer_DecodeReal", [("v", 8), E4], (lambda v, e: [S("ab"), v, e]), defd("v", 8), DOCS + ("<ab>-1.5E3</ab>",)),
               ("Xer_DecodeBoolean", [("v", 1), E4], (lambda v, e: [S("ab"), v, e]), defd("v", 1), ("<ab><true/></ab>", "<ab><false/></ab>", "<ab>1</ab>")),
               ("Xer_DecodeBoolean", [("v", 1), E4], (lambda v, e: [0, v, e]), defd("v", 1), ("<true/>", "<false/>")),
               ("Xer_DecodeEnumerated", [("v", 100), E4], (lambda v, e: [S("ab"), v, e]), defd("v", 1), ("<ab><x/></ab>", "<ab><x>y</x></ab>")),
               ("Xer_DecodeEnumerated", [("v", 100), E4], (lambda v, e: [S(""), v, e]), defd("v", 1), ("<x/>",)),
               ("Xer_DecodeString", [("v", 4), E4], (lambda v, e: [S("ab"), v, 4, e]), defd("v", 1), DOCS + ("<ab>123</ab>",)),
               ("Xer_DecodeString", [("v", 1), E4], (lambda v, e: [S("ab"), v, 1, e]), defd("v", 1), DOCS),
               ("Xer_DecodeOctetString", [("v", 2), ("n", 4), E4], (lambda v, n, e: [S("ab"), v, 2, n, e]), le("n", 0, 2), DOCS + ("<ab>1 2aF</ab>", "<ab>123</ab>", "<ab>12345</ab>")),
               ("Xer_DecodeOctetString", [("v", 0), E4], (lambda v, e: [S("ab"), v, 0, 0, e]), None, ("<ab>1</ab>", "<ab> </ab>")),
               ("Xer_DecodeBitString", [("v", 1), ("n", 4), E4], (lambda v, n, e: [S("ab"), v, 1, n, e]), le("n", 0, 8), DOCS + ("<ab>10110011</ab>", "<ab>101100111</ab>")),
               ("Xer_DecodeBitString", [("v", 0), E4], (lambda v, e: [S("ab"), v, 0, 0, e]), None, ("<ab>1</ab>", "<ab> </ab>")),
               ("Xer_DecodeObjectIdentifier", [("v", WB * (OIDMAX + 1)), E4], (lambda v, e: [S("ab"), v, e]), le("v", 0, OIDMAX), DOCS + ("<ab>1.2</ab>", "<ab>.</ab>", "<ab>1..x</ab>")),
               ("Xer_DecodeComplexElementStart", [E4], (lambda e: [S("ab"), 0, e]), None, ("<ab>", "<ab/>", "<ab c=\"d\">")),
               ("Xer_DecodeComplexElementEnd", [E4], (lambda e: [S("ab"), e]), None, ("</ab>",)),
               ("Xer_NextEndElementIs", [], (lambda: [S("ab")]), None, ("</ab>", "<ab>")),
               ("Xer_NextStartElementIs", [], (lambda: [S("ab")]), None, ("<ab>", "<ab/>", "<!--x--><ab>")),
               ("Xer_LA_NextElementTag", [("v", 100)], (lambda v: [v]), None, ("<ab>", "<ab/>", "<!--x--><ab>"))]
        for fn, outs, args, chk, docs in ops:
            lb = lambda t: "text %s" % t
            seen = set()
            def add(cells, t, want=None, end=None):
                if tuple(cells) not in seen: seen.add(tuple(cells)); J(fn, cells, outs, args, chk, "text %r" % t, want, end)
            for d in docs:
                b = [ord(ch) for ch in d]
                for k in range(len(b) + 1):
                    if k < len(b): add(b[:k], d[:k], 0)                                   # every truncation
                    add(b[:k] + [None], d[:k] + "?")
                    if k < len(b): add(b[:k] + [None] + b[k + 1:], d[:k] + "?" + d[k + 1:])       # any octet in place of one
                    if k < len(b) and D:
                        add(b[:k] + [None] + b[k:], d[:k] + "?" + d[k:])
                        add(b[:k] + [None, None] + b[k + 1:], d[:k] + "??" + d[k + 1:])
            # long names and contents
            for n in (98, 99, 100, 101, 150, 300) if D or len(outs) < 3 else (99, 100, 300):
                nm = [120] * n
                for pre, post in (("<", ""), ("<", ">"), ("<", "/>"), ("<ab><", "/></ab>"), ("</", ">"), ("<ab>1</", ">")):
                    add([ord(ch) for ch in pre] + nm + [ord(ch) for ch in post], "%s(name of %d characters)%s" % (pre, n, post))
            for n in (254, 255, 256, 257, 300, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2500):
                if "Element" in fn: break
                if n < 1000 or re.search("String|Object", fn):
                    for ch, post in ((49, "</ab>"), (49, ""), (32, "</ab>")):
                        add([60, 97, 98, 62] + [ch] * n + [ord(x) for x in post], "<ab>(%d times %r)%s" % (n, chr(ch), post))
            for n in (19, 20, 21, 22, 40) if "Object" in fn else ():
                for sfx in ("", "."):
                    t = "<ab>" + ".".join("1" for _ in range(n)) + sfx + "</ab>"
                    add([ord(x) for x in t], "%d arcs%s" % (n, sfx))
        # well-formed texts and what they mean
        def good(fn, t, outs, args, expect, fol=(), peek=False, label="", few=False):
            """t: characters or octets; expect(F): [(output, offset, octets)]"""
            b = [x if not isinstance(x, str) else ord(x) for x in t]
            def chk(F, ok, get):
                r = []
                for name, off, by in expect if ok else ():
                    for i, w in enumerate(by):
                        x = get(name, off + i, 1)
                        if x is UNDEF: r.append(("undef", "reports success without defining %s[%d]" % (name, off + i))); break
                        if not same(F, x, simp(tuple(w)) if isinstance(w, tuple) else w, 8): r.append(("value", "%s[%d] is %s, expected %s" % (name, off + i, show(F, x, 8), show(F, w, 8)))); break
                return r
            for f in ([], [ord("<")], [None], [32]): J(fn, b + f, outs, args, chk, "%s and %d further octets" % (label or "".join(x if isinstance(x, str) else "?" for x in t), len(f)), 1, 0 if peek else len(b))
            if not peek or fn.startswith("Xer_LA"):
                for k in range(len(b)) if not few else (4, len(b) // 2, len(b) - 5, len(b) - 1): J(fn, b[:k], outs, args, None, "the first %d octets of %s" % (k, label or t), 0)
        i4 = lambda v: list(v.to_bytes(4, "little"))
        WS = ("", "<?xml version=\"1.0\"?>\n", "<!-- c -->", " \t\r\n", "<?xml?><!-- -- > -->\n ")
        # texts that are another element, or hold what the type cannot have
        def bad(fn, outs, args, *ts):
            for t in ts:
                for ws in ("", " <!-- c -->\n"): J(fn, [ord(x) for x in ws + t], outs, args, None, "another text %r" % (ws + t), 3)
        fr = lambda *bs: [f % b for b in bs for f in ("<ac>%s</ac>", "<ab>%s</ac>", "<ab>%s<ab>", "</ab>%s</ab>", "<abc>%s</abc>", "<a>%s</a>", "<ab>%s</abc>", "<ab=>%s</ab>", "<ab>%s</ab<", "ab>%s</ab>")]
        t1 = (lambda v, e: [S("ab"), v, e])
        bad("Xer_DecodeNull", [("v", 1), E4], t1, *fr(""), "<ac/>", "<ab/<")
        bad("Xer_DecodeInteger", [("v", WB), E4], t1, *fr("1", "-77"))
        bad("Xer_DecodePosInteger", [("v", WB), E4], t1, *fr("1", "77"))
        bad("Xer_DecodeReal", [("v", 8), E4], t1, *fr("1.5", "-1E3"))
        bad("Xer_DecodeBoolean", [("v", 1), E4], t1, *fr("<true/>", "<false/>"), "<ab><maybe/></ab>", "<ab>true</ab>", "<ab><true></ab>", "<true/>", "<ab/>")
        bad("Xer_DecodeEnumerated", [("v", 100), E4], t1, *fr("<x/>"), "<ab>x</ab>", "<ab></x></ab>", "<x/>", "<ab/>")
        for cap in (1, 4): bad("Xer_DecodeString", [("v", cap), E4], (lambda v, e, cap=cap: [S("ab"), v, cap, e]), *fr(""), "<ab>%s</ab>" % ("x" * cap), "<ab>%s</ab>" % ("x" * (cap + 9)), *(fr("xyz") if cap > 3 else ()))
        bad("Xer_DecodeOctetString", [("v", 2), ("n", 4), E4], (lambda v, n, e: [S("ab"), v, 2, n, e]), *fr("12", "1aFf"), "<ab>1G</ab>", "<ab>12345</ab>", "<ab>-1</ab>", "<ab>1.</ab>", "<ab>0x</ab>", "<ab>12 34 56</ab>")
        bad("Xer_DecodeBitString", [("v", 1), ("n", 4), E4], (lambda v, n, e: [S("ab"), v, 1, n, e]), *fr("101"), "<ab>102</ab>", "<ab>101010101</ab>", "<ab>1/</ab>", "<ab>a</ab>")
        bad("Xer_DecodeObjectIdentifier", [("v", WB * (OIDMAX + 1)), E4], t1, *fr("1.2"), "<ab>1.x</ab>", "<ab>x</ab>", "<ab>1..2</ab>", "<ab>.1</ab>", "<ab>%s</ab>" % ".".join("1" * 21))
        bad("Xer_DecodeComplexElementStart", [E4], (lambda e: [S("ab"), 0, e]), "<ac>", "</ab>", "<abc>", "ab>", "<ab/<", "<ab c>", "<ab c=d>", "<ab c=\"d>", "<ab =\"d\">", ">", "<>")
        bad("Xer_DecodeComplexElementEnd", [E4], (lambda e: [S("ab"), e]), "</ac>", "<ab>", "</abc>", "</ab/>", "</ab<", "/ab>", "<//ab>", "</>")
        bad("Xer_LA_NextElementTag", [("v", 100)], (lambda v: [v]), "</ab>", "ab", ">", "<>", "< ")
        for ws in WS:
            for n in (0, 1, 2, 3):
                ch = [simp(fresh_bits("t%d" % i, 5) + (0, 1, 0)) for i in range(n)]
                for cap in (n + 1, n + 2):
                    good("Xer_DecodeString", [*ws, *"<ab>", *ch, *"</ab>"], [("v", cap), E4], (lambda v, e, cap=cap: [S("ab"), v, cap, e]), [("v", 0, ch + [0])], label="a string of %d characters after %r" % (n, ws))
            hd = [(simp(fresh_bits("h", 3) + (0, 1, 1, 0, 0)), lambda x: x[:3] + (0,)), (simp(fresh_bits("h", 1) + (0, 0, 1, 1, 1, 0, 0)), lambda x: x[:1] + (0, 0, 1))]
            hd += [(ord(q), lambda x, q=q: tuple(((int(q, 16)) >> k) & 1 for k in range(4))) for q in "aAbBcCdDeEfF"]
            for i, (d1, f1) in enumerate(hd):
                for d2, f2 in (hd if D else (hd[i], hd[(i + 1) % len(hd)], hd[0])):
                    n1, n2 = f1(d1), f2(d2)
                    t = [*ws, *"<ab>", d1, d2, *" \n", d2, *"</ab>"]
                    good("Xer_DecodeOctetString", t, [("v", 2), ("n", 4), E4], (lambda v, n, e: [S("ab"), v, 2, n, e]), [("v", 0, [tuple(n2) + tuple(n1), (0,) * 4 + tuple(n2)]), ("n", 0, i4(2))], label="three hexadecimal digits after %r" % ws)
                if ws: break
            for n in (0, 1, 7, 8, 9, 16):
                fl = fresh_bits("b", n)
                by = [tuple(reversed((list(fl) + [0] * 16)[8 * k:8 * k + 8])) for k in range((n + 7) // 8)]
                t = [*ws, *"<ab>"] + [simp((b, 0, 0, 0, 1, 1, 0, 0)) for b in fl] + [*"</ab>"]
                good("Xer_DecodeBitString", t, [("v", len(by)), ("n", 4), E4], (lambda v, nn, e, k=len(by): [S("ab"), v, k, nn, e]), [("v", 0, by), ("n", 0, i4(n))], label="%d bits after %r" % (n, ws))
            for t in (" x", "x ", "  ", "\n", "\tx y ", "a\nb", "-1 "):
                good("Xer_DecodeString", [*ws, *"<ab>", *t, *"</ab>"], [("v", 9), E4], (lambda v, e: [S("ab"), v, 9, e]), [("v", 0, [ord(x) for x in t] + [0])], label="the string %r after %r" % (t, ws), few=True)
            if ws == "":        # longer contents: known characters
                few = dict(few=True)
                for n in (9, 40, 200):
                    b = [33 + (11 * i) % 90 for i in range(n)]
                    b = [120 if x in (60, 62, 38) else x for x in b]
                    for cap in (n + 1, n + 40): good("Xer_DecodeString", [*"<ab>", *map(chr, b), *"</ab>"], [("v", cap), E4], (lambda v, e, cap=cap: [S("ab"), v, cap, e]), [("v", 0, b + [0])], label="a string of %d characters" % n, **few)
                    o = [(i * 37 + 9) & 0xFF for i in range(n // 2)]
                    for cap in (len(o), len(o) + 3): good("Xer_DecodeOctetString", [*"<ab>", *"".join("%02X" % x for x in o), *"</ab>"], [("v", cap), ("n", 4), E4], (lambda v, nn, e, cap=cap: [S("ab"), v, cap, nn, e]), [("v", 0, o), ("n", 0, i4(len(o)))], label="%d octets" % len(o), **few)
                    bb = [((i * 5 + i // 7) >> 1) & 1 for i in range(n)]
                    by = [sum(x << (7 - j) for j, x in enumerate(bb[8 * k:8 * k + 8])) for k in range((n + 7) // 8)]
                    for cap in (len(by), len(by) + 2): good("Xer_DecodeBitString", [*"<ab>", *map(str, bb), *"</ab>"], [("v", cap), ("n", 4), E4], (lambda v, nn, e, cap=cap: [S("ab"), v, cap, nn, e]), [("v", 0, by), ("n", 0, i4(n))], label="%d bits" % n, **few)
            for v, nm in ((1, "true"), (0, "false")):
                for sl in ("<%s/>", "<%s></%s>" ):
                    body = sl.replace("%s", nm)
                    good("Xer_DecodeBoolean", ws + "<ab>" + ws + body + ws + "</ab>", [("v", 1), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, [v])])
                    for tg in (0, ""): good("Xer_DecodeBoolean", ws + body, [("v", 1), E4], (lambda v, e, tg=tg: [tg if tg == 0 else S(tg), v, e]), [("v", 0, [v])])
            for nm in ("x", "red-1", "a" * 99):
                good("Xer_DecodeEnumerated", ws + "<ab>" + ws + "<%s/>" % nm + ws + "</ab>", [("v", 100), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, text(nm))])
                for tg in (0, ""): good("Xer_DecodeEnumerated", ws + "<%s/>" % nm, [("v", 100), E4], (lambda v, e, tg=tg: [tg if tg == 0 else S(tg), v, e]), [("v", 0, text(nm))])
                for t in ("<%s>", "<%s/>"): good("Xer_LA_NextElementTag", ws + t % nm, [("v", 100)], (lambda v: [v]), [("v", 0, text(nm))], peek=True)
            for t in ("<ab/>", "<ab></ab>"): good("Xer_DecodeNull", ws + t, [("v", 1), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, [0])])
            i8 = lambda v: list((v & (2 ** W - 1)).to_bytes(WB, "little"))
            for arcs in ((1, 2, 840, 113549), (2, 999, 0, 2 ** W - 1), (0,), tuple(range(20)), (65535, 10, 9)):
                for sep in (".", " . ", ".\n"):
                    good("Xer_DecodeObjectIdentifier", ws + "<ab>" + ("" if sep == "." else " ") + sep.join(map(str, arcs)) + ("" if sep == "." else " ") + "</ab>", [("v", WB * (OIDMAX + 1)), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, i4(len(arcs)))] + [("v", WB * (k + 1), i8(a)) for k, a in enumerate(arcs)], few=True)
            for v in (0, 1, -1, 42, 10 ** 9 + 7, 2 ** (W - 1) - 1, -2 ** (W - 1), -90):
                for body in ("%d", " %d", "\n%d\t"): good("Xer_DecodeInteger", ws + "<ab>" + body % v + "</ab>", [("v", WB), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, i8(v))], few=True)
                if v >= 0: good("Xer_DecodePosInteger", ws + "<ab>%d</ab>" % (v * 2 + 1), [("v", WB), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, i8(v * 2 + 1))], few=True)
            for v in (0.0, 1.0, -2.5, 3.25e10, 1.5e-7, -1e300, 5e-324, 0.1, float("inf"), float("-inf")):
                for t in {repr(v).replace("inf", "INF"), "%.1E" % v if v == float("%.1E" % v) else repr(v)}: good("Xer_DecodeReal", ws + "<ab>" + t + "</ab>", [("v", 8), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, list(struct.pack("<d", v)))], few=True)
            for k in (0, 1, 2, 19, 20):
                good("Xer_DecodeObjectIdentifier", ws + "<ab>" + " . ".join(["12"] * k) + "</ab>", [("v", WB * (OIDMAX + 1)), E4], (lambda v, e: [S("ab"), v, e]), [("v", 0, i4(k))], label="%d arcs after %r" % (k, ws))
            good("Xer_DecodeComplexElementStart", ws + "<ab" + (ws if ws.isspace() else "") + ">", [E4], (lambda e: [S("ab"), 0, e]), [])
            good("Xer_DecodeComplexElementStart", ws + "<ab c=\"d\" >", [E4], (lambda e: [S("ab"), 0, e]), [])
            for tg in (0, ""):
                J("Xer_DecodeComplexElementStart", [None] * 2, [E4], (lambda e, tg=tg: [tg if tg == 0 else S(tg), 0, e]), None, "no element expected", 1, 0)
                J("Xer_DecodeComplexElementEnd", [None] * 2, [E4], (lambda e, tg=tg: [tg if tg == 0 else S(tg), e]), None, "no element expected", 1, 0)
            good("Xer_DecodeComplexElementEnd", ws + "</ab>", [E4], (lambda e: [S("ab"), e]), [])
            good("Xer_NextEndElementIs", ws + "</ab>", [], (lambda: [S("ab")]), [], peek=True)
            for t in ("<ab>", "<ab/>"): good("Xer_NextStartElementIs", ws + t, [], (lambda: [S("ab")]), [], peek=True)
            for t in ("<ac>", "</ab>", "<a>", "<abc>", "ab", ""): J("Xer_NextStartElementIs", [ord(x) for x in ws + t], [], (lambda: [S("ab")]), None, "another element %s" % t, 2, 0)
            for t in ("</ac>", "<ab>", "</a>", "</abc>", "ab", ""): J("Xer_NextEndElementIs", [ord(x) for x in ws + t], [], (lambda: [S("ab")]), None, "another element %s" % t, 2, 0)
        # attributes
        fn = "Xer_DecodeAttributes"
        def atts(n0):
            # the array with n0 entries in use
            cells = [(0)] * 3000 + [(n0 >> (8 * i)) & 255 for i in range(4)]
            return Data(cells, "attributes")
        def attdec(c, cells, n0, label, want=None):
            """want: the (name, value) pairs that the well-formed text adds"""
            if c.k["be"]: return [], 0
            out = []
            m = ByteMach(c)
            m.buf(len(cells), [simp(tuple(reversed(fresh_bits("i", 8)))) if x is None else x for x in cells], "input")
            bs = m.bs(0)
            p = realise(m, atts(n0)) if n0 is not None else 0
            e = m.out(4, "err"); np_ = 0
            for s in m.run("Xer_DecodeAttributes", [bs, p, e]):
                np_ += 1
                if fault_of(s, "Xer_DecodeAttributes", label, out): continue
                if n0 is None: continue
                n = s.F.N(c.E.load(s, Ptr(p.o, 3000), 4, 32))
                if not isinstance(n, int) or sgn(n, 32) > 20 and n != n0: found(out, s.F, "count", "Xer_DecodeAttributes", "counts %s attributes of at most 20" % n, label)
                if want is None: continue
                F = s.F
                r = F.N(s.user.get("ret"))
                if not isinstance(r, int): continue
                if want is False:
                    if r & 1: found(out, F, "accept", fn, "accepts a %s, more than an attribute holds" % label, label)
                    continue
                if bool(r & 1) != (n0 + len(want) <= 20): found(out, F, "reject" if not r & 1 else "accept", fn, "%s %d attributes with %d of 20 present" % ("accepts" if r & 1 else "rejects", len(want), n0), label); continue
                if not r & 1: continue
                if n != n0 + len(want): found(out, F, "value", fn, "counts %s attributes instead of %d" % (n, n0 + len(want)), label); continue
                q = m.posof(s)          # before what closes the element, the white space in front of it read or not
                if not isinstance(q, int) or q // 8 >= len(cells) or any(x not in (32, 10, 9, 13) for x in cells[q // 8:-1]): found(out, F, "pos", fn, "stops at octet %s" % (m.posof(s) // 8), label)
                for k, (a_, v_) in enumerate(want):
                    for off, t_ in ((0, a_), (50, v_)):
                        for j_, ch in enumerate([ord(x) for x in t_] + [0]):
                            if F.N(c.E.load(s, Ptr(p.o, 150 * (n0 + k) + off + j_), 1, 8)) != ch:
                                found(out, F, "value", fn, "%s of attribute %d is not %r" % ("value" if off else "name", n0 + k, t_), label); break
            return out, np_
        one = lambda a, b: " %s=\"%s\"" % (a, b)
        T = lambda t: [ord(x) for x in t]
        for n0 in (None, 0, 18, 19, 20, 21, 0x7FFFFFFF, 0xFFFFFFFF):
            for k in (0, 1, 2, 3): g.add(fn, attdec, T(one("a", "1") * k + ">"), n0, "%s attributes present, %d read" % (n0, k))
        for n in (48, 49, 50, 51, 98, 99, 100, 101, 130):
            for n0 in (0, 19):
                g.add(fn, attdec, T(one("a" * n, "1") + ">"), n0, "name of %d characters" % n, (("a" * n, "1"),) if n < 50 else False)
                g.add(fn, attdec, T(one("a", "1" * n) + ">"), n0, "value of %d characters" % n, (("a", "1" * n),) if n < 100 else False)
        for n0 in (0, 1, 17, 18, 19, 20):
            for lst in ((("xmlns", "urn-1.2"),), (("a", "b"), ("ccc", "dd-d")), (("n" * 49, "v" * 99),), (("n1", "v1"), ("n2", "v2"), ("n1", "v2"))):
                for fmt in (" %s=\"%s\"", "\n%s = \" %s \" "):
                    g.add(fn, attdec, T("".join(fmt % x for x in lst) + ">"), n0, "%d attributes present, then %s" % (n0, "".join(fmt % x for x in lst)[:60]), lst)
        t = T(one("a", "1") + ">")
        for k in range(len(t) + 1):
            g.add(fn, attdec, t[:k], 0, "cut")
            g.add(fn, attdec, t[:k] + [None] + t[k + 1:], 0, "any octet at %d" % k)
        xload(g)
    if enc_:
        tags = ("ab", "", None)
        def tg(t): return S(t) if t is not None else 0
        def X(fn, args, want, level_pos=None, label=""):
            """args(level): arguments up to the error code; want(level, white): expected octets or None"""
            for white in (0, 1):
                for level in (-1, 0, 2) if level_pos else (0,):
                    w = want(level, white)
                    n = len(w) if w is not None else 0
                    caps = range(0, n + 4) if n <= 40 else sorted({0, 1, n // 2, n - 1, n, n + 1, n + 2, n + 3})
                    for cap in caps:
                        for pos in ((0,) if cap % 3 else (0, 3)):
                            def al(level=level): return args(level) + ([level & 0xFFFFFFFF] if level_pos else [])
                            g.add(fn, xenc, fn, al, white, cap + pos, pos, w, "%s level %d, white space %d, %d octets of room" % (label, level, white, cap))
        sp = lambda level, white: [32] * (2 * level) if white and level >= 0 else []
        nl = lambda level, white: [10] if white and level >= 0 else []
        nlw = lambda white: [10] if white else []
        T = lambda t: [ord(x) for x in t]
        def prim(tag, v): return lambda l, w: sp(l, w) + (T("<" + tag + ">") + v + T("</" + tag + ">") if v else T("<" + tag + "/>")) + nl(l, w)
        er = lambda: OutInt()
        ch = lambda: simp(fresh_bits("ch", 5) + (1, 0, 0))
        for v in ("", "x", "hello"):
            X("Xer_EncodeString", (lambda l, v=v: [S("ab"), S(v), er()]), prim("ab", T(v)), 1, "%r" % v)
            X("Xer_EncodePrimitiveElement", (lambda l, v=v: [S("ab"), S(v), er()]), prim("ab", T(v)), 1, "%r" % v)
        X("Xer_EncodePrimitiveElement", (lambda l: [S("ab"), 0, er()]), prim("ab", []), 1, "no value")
        X("Xer_EncodeNull", (lambda l: [S("ab"), 0, er()]), prim("ab", []), 1)
        for f in (0, 1):
            nm = "true" if f else "false"
            X("Xer_EncodeBoolean", (lambda l, f=f: [S("ab"), f, er()]), prim("ab", T("<%s/>" % nm)), 1, nm)
            for t in ("", None): X("Xer_EncodeBoolean", (lambda l, f=f, t=t: [tg(t), f, er()]), prim(nm, []), 1, nm + " without element")
        def wrap(body): return lambda l, w: sp(l, w) + T("<ab>") + body + T("</ab>") + nlw(w)
        X("Xer_EncodeEnumerated", (lambda l: [S("ab"), S("red"), er()]), wrap(T("<red/>")), 1)
        for t in ("", None): X("Xer_EncodeEnumerated", (lambda l, t=t: [tg(t), S("red"), er()]), prim("red", []), 1, "without element")
        for t in ("", None):
            X("Xer_EncodeComplexElementStart", (lambda l, t=t: [tg(t), 0, er()]), (lambda l, w: []), 1, "no element")
            X("Xer_EncodeComplexElementEnd", (lambda l, t=t: [tg(t), er()]), (lambda l, w: []), 1, "no element")
        X("Xer_EncodeComplexElementStart", (lambda l: [S("ab"), 0, er()]), (lambda l, w: sp(l, w) + T("<ab>") + nl(l, w)), 1)
        X("Xer_EncodeComplexElementEnd", (lambda l: [S("ab"), er()]), (lambda l, w: sp(l, w) + T("</ab>") + nl(l, w)), 1)
        X("Xer_EncodeComment", (lambda l: [S("note"), er()]), (lambda l, w: T("<!--note-->")), None)
        hexd = lambda b: T("%02X" % b)
        for bs in ([], [0x0F], [0xA0, 0xFF], [1, 2, 3]):
            X("Xer_EncodeOctetString", (lambda l, bs=bs: [S("ab"), Data(bs, "octets"), len(bs), er()]), wrap([x for b in bs for x in hexd(b)]), 1, "%d octets" % len(bs))
        for n in (9, 40, 130):
            t = "t" * (n // 2)
            bs = [(i * 37 + 9) & 0xFF for i in range(n)]
            v = "".join(chr(97 + i % 26) for i in range(n))
            bb = [(b >> (7 - k)) & 1 for b in bs for k in range(8)][:8 * n - 3]
            X("Xer_EncodeOctetString", (lambda l, bs=bs: [S("ab"), Data(bs, "octets"), len(bs), er()]), wrap([x for b in bs for x in hexd(b)]), 1, "%d octets" % n)
            X("Xer_EncodeBitString", (lambda l, bs=bs, bb=bb: [S("ab"), Data(bs, "bits"), len(bb), er()]), wrap([48 + b for b in bb]), 1, "%d bits" % len(bb))
            X("Xer_EncodeString", (lambda l, v=v, t=t: [S(t), S(v), er()]), prim(t, T(v)), 1, "%d characters" % n)
            X("Xer_EncodePrimitiveElement", (lambda l, v=v, t=t: [S(t), S(v), er()]), prim(t, T(v)), 1, "%d characters" % n)
            X("Xer_EncodeComplexElementStart", (lambda l, t=v: [S(t), 0, er()]), (lambda l, w, t=v: sp(l, w) + T("<%s>" % t) + nl(l, w)), 1, "name of %d characters" % n)
            X("Xer_EncodeComplexElementEnd", (lambda l, t=v: [S(t), er()]), (lambda l, w, t=v: sp(l, w) + T("</%s>" % t) + nl(l, w)), 1, "name of %d characters" % n)
            X("Xer_EncodeComment", (lambda l, v=v: [S(v), er()]), (lambda l, w, v=v: T("<!--%s-->" % v)), None, "%d characters" % n)
        for hi in range(16):        # every octet value: four unknown bits at a time
            for low in (0, 1):
                if hi >= 10 and not D and hi % 2: continue
                def one(c, hi=hi, low=low):
                    # one nibble unknown below / above eight, the other known
                    out = []; np_ = 0
                    for cls in ("lo", "8", "A"):
                        if cls == "lo": nib = fresh_bits("n", 3) + (0,); exp = simp(nib[:3] + (0, 1, 1, 0, 0))
                        elif cls == "8": nib = fresh_bits("n", 1) + (0, 0, 1); exp = simp(nib[:1] + (0, 0, 1, 1, 1, 0, 0))
                        else: continue
                        h = tobv(hi, 4)
                        byte = simp(tuple(nib) + tuple(h)) if low else simp(tuple(h) + tuple(nib))
                        k = ord("%X" % hi)
                        w = T("<ab>") + ([k, exp] if low else [exp, k]) + T("</ab>")
                        r, n = xenc(c, "Xer_EncodeOctetString", lambda: [S("ab"), Data([byte], "octets"), 1, er(), 0], 0, 20, 0, w, "nibble %X and any below %s" % (hi, cls))
                        out += r; np_ += n
                    return out, np_
                g.add("Xer_EncodeOctetString", one)
        for n in (0, 1, 7, 8, 9, 17):
            def bits(c, n=n):
                by = chars((n + 7) // 8)
                fl = [b for x in by for b in bits_of(x)][:n]
                w = T("<ab>") + [simp((b, 0, 0, 0, 1, 1, 0, 0)) for b in fl] + T("</ab>")
                return xenc(c, "Xer_EncodeBitString", lambda: [S("ab"), Data(by, "bits"), n, er(), 0], 0, 40, 0, w, "%d bits" % n) if n <= 9 else xenc(c, "Xer_EncodeBitString", lambda: [S("ab"), Data([0xA5] * 3, "bits"), n, er(), 0], 0, 40, 0, None, "%d bits" % n)
            g.add("Xer_EncodeBitString", bits)
            X("Xer_EncodeBitString", (lambda l, n=n: [S("ab"), Data([0xA5] * ((n + 7) // 8), "bits"), n, er()]), wrap(T("".join(str((0xA5 >> (7 - i % 8)) & 1) for i in range(n)))), 1, "%d bits" % n)
        # numbers: text of unknown content, only where it may go
        def num(fn, args, label):
            for cap in range(0, 50, 1 if D else 3):
                for white in (0, 1):
                    g.add(fn, xenc, fn, (lambda: [S("ab")] + args() + [er(), 1]), white, cap, 0, None, "%s, %d octets of room" % (label, cap))
        num("Xer_EncodeInteger", lambda: [val(fresh_bits("v", W))], "any number")
        num("Xer_EncodePosInteger", lambda: [val(fresh_bits("v", W))], "any number")
        for x in (0.0, -0.0, 1.0, -2.5, 1e300, 3.3e-300, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 123456789.125):
            num("Xer_EncodeReal", (lambda x=x: [struct.unpack(">Q", struct.pack(">d", x))[0]]), repr(x))
        for x in REALS: g.add("Xer_EncodeReal", xreal, x, repr(x))
        for v in (0, 1, -1, 42, 10 ** 9 + 7, 2 ** (W - 1) - 1, -2 ** (W - 1), -90):
            X("Xer_EncodeInteger", (lambda l, v=v: [S("ab"), v & (2 ** W - 1), er()]), prim("ab", T(str(v))), 1, str(v))
            if v >= 0: X("Xer_EncodePosInteger", (lambda l, v=v: [S("ab"), v * 2 + 1, er()]), prim("ab", T(str(v * 2 + 1))), 1, str(v * 2 + 1))
        def oidx(c, arcs, white, level, cap, exp, label):
            d = Data([b for v in [len(arcs)] + list(arcs) + [7] * (OIDMAX - len(arcs)) for b in v.to_bytes(WB, "little")], "object identifier")
            return xenc(c, "Xer_EncodeObjectIdentifier", lambda: [S("ab"), d, er(), level & 0xFFFFFFFF], white, cap, 0, exp, label)
        for arcs in ((1, 2, 840, 113549), (2, 999, 0, 2 ** W - 1), (0,), tuple(range(20)), ()):
            for white in (0, 1):
                for level in (-1, 0, 2):
                    exp = sp(level, white) + T("<ab>") + T(".".join(map(str, arcs))) + T("</ab>") + nlw(white)
                    for cap in sorted({0, 1, 4, len(exp) - 8, len(exp) - 1, len(exp), len(exp) + 1, len(exp) + 2, len(exp) + 3}): g.add("Xer_EncodeObjectIdentifier", oidx, arcs, white, level, cap, exp, "%s level %d, white space %d, %d octets of room" % (".".join(map(str, arcs)), level, white, cap))
        for n in (0, 1, 2, 19, 20):
            def oid(n=n): return [Data([b for v in [n] + [2 ** 63] * OIDMAX for b in (v).to_bytes(8, "little")], "object identifier")] if W == 64 else [Data([b for v in [n] + [2 ** 31] * OIDMAX for b in (v).to_bytes(4, "little")], "object identifier")]
            for cap in (0, 3, 4, 5, 9, 10, 24, 30, 31, 50, 51, 52, 400, 430, 500):
                for white in (0, 1):
                    g.add("Xer_EncodeObjectIdentifier", xenc, "Xer_EncodeObjectIdentifier", (lambda oid=oid: [S("ab")] + oid() + [er(), 1]), white, cap, 0, None, "%d arcs, %d octets of room" % (n, cap))
        hdr = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"
        for t, ptr in ((hdr, 0), ("<?x?>", 1), ("", 1)):
            for cap in range(0, len(t) + 5):
                g.add("Xer_EncodeXmlHeader", xenc, "Xer_EncodeXmlHeader", (lambda t=t, ptr=ptr: [S(t) if ptr else 0]), 0, cap, 0, T(t + "\n"), "%d octets of room" % cap)
        for na in (0, 1, 2, 20):
            for cap in (0, 1, 2, 3, 4, 7, 9, 10, 11, 20, 21, 22, 100, 160, 161, 200):
                def at(na=na):
                    cells = []
                    for i in range(20): cells += ([98] * 3 + [0] * 47) + ([99, 99] + [0] * 98)
                    return Data(cells + [na, 0, 0, 0], "attributes")
                g.add("Xer_EncodeComplexElementStart", xenc, "Xer_EncodeComplexElementStart", (lambda at=at: [S("ab"), at(), er(), 0]), 1, cap, 0, None, "%d attributes, %d octets of room" % (na, cap))
        for lst in ((("b", "c"),), (("xmlns", "urn-1.2"), ("n" * 49, "v" * 99)), tuple(("n%d" % i, "%d" % (i * i)) for i in range(20))):
            def at2(lst=lst):
                cells = []
                for i in range(20):
                    for t_, n_ in zip(lst[i] if i < len(lst) else ("", ""), (50, 100)): cells += T(t_) + [0] * (n_ - len(t_))
                return Data(cells + [len(lst), 0, 0, 0], "attributes")
            for white, level in ((0, 1), (1, 2), (1, -1)):
                exp = sp(level, white) + T("<ab" + "".join(" %s=\"%s\"" % x for x in lst) + ">") + (nlw(white) if level >= 0 else [])
                for cap in sorted({len(exp) - 2, len(exp) - 1, len(exp), len(exp) + 1, len(exp) + 2, len(exp) + 9}): g.add("Xer_EncodeComplexElementStart", xenc, "Xer_EncodeComplexElementStart", (lambda at2=at2, level=level: [S("ab"), at2(), er(), level & 0xFFFFFFFF]), white, cap, 0, exp, "attributes %s level %d, white space %d, %d octets of room" % (lst[:2], level, white, cap))

def xreal(c, x, label):
    """the text of a real number denotes it (to 12 digits)"""
    out = []
    fn = "Xer_EncodeReal"
    m = ByteMach(c)
    m.buf(90)
    bs = m.bs(0)
    e = m.out(4, "err")
    for s in m.run(fn, [bs, realise(m, S("ab")), struct.unpack(">Q", struct.pack(">d", x))[0], e, 0xFFFFFFFF]):
        if fault_of(s, fn, label, out): continue
        F = s.F
        r, q = F.N(s.user.get("ret")), m.posof(s)
        if not isinstance(r, int) or not isinstance(q, int): continue
        if not r & 1: found(out, F, "reject", fn, "fails although the text fits", label); continue
        t = [F.N(c.E.load(s, Ptr(m.b, i), 1, 8)) for i in range(min(q // 8, 90))]
        if not all(isinstance(b, int) for b in t): continue
        t = "".join(map(chr, t))
        b = re.fullmatch("<ab>(.*)</ab>", t)
        try: v = float(b.group(1)) if b else None
        except ValueError: v = None
        if v is None: found(out, F, "bits", fn, "writes %r" % t, label); continue
        if x != x and v != v or x == v: continue
        if not abs(x - v) <= 1e-12 * abs(x) + 1e-323: found(out, F, "bits", fn, "writes %r for %r" % (t, x), label)
    return out, 1
REALS = sorted({s_ * m_ * 10.0 ** e_ for s_ in (1, -1) for m_ in (1, 2.5, 9.75, 1 / 3, 9.999999999999998) for e_ in (-300, -160, -31, -18, -17, -16, -5, -1, 0, 1, 2, 9, 15, 16, 17, 18, 19, 22, 100, 300)}) + [0.0, -0.0, 5e-324, -2.2250738585072014e-308, 1.7e308, float("inf"), float("-inf"), float("nan"), 4294967296.0, -9.223372036854775808e18, 1e-17, 9.9e-18]
def loadxml(c, cells, cap, want, label, absent=False):
    """LoadXmlFile on a file with these octets (None: unknown). want: the text that must be loaded, None: only where it writes"""
    out = []
    fn = "LoadXmlFile"
    m = ByteMach(c)
    m.buf(max(cap, 1))
    bs = m.bs(0, cap)
    cl = [simp(tuple(reversed(fresh_bits("f%d" % i, 8)))) if x is None else x for i, x in enumerate(cells)]
    f = realise(m, Data(cl, "file")) if not absent else 0
    n = m.out(4, "loaded"); op = m.out(4, "open")
    nm = realise(m, S("f"))
    np_ = 0
    if len(cells) > 1000: m.E.max_steps = max(m.E.max_steps, 2000000)
    for s in m.run("vf_load", [bs, nm, n, f, len(cl), op]):
        np_ += 1
        if fault_of(s, fn, label, out): continue
        F = s.F
        r = s.user.get("ret")
        if r is UNDEF or r is None: found(out, F, "init", fn, "returns an undefined result", label); continue
        r = F.N(r)
        if not isinstance(r, int): continue
        if F.N(c.E.load(s, op, 4, 32)): found(out, F, "value", fn, "leaves the file open", label)
        if absent:
            if r & 1: found(out, F, "accept", fn, "reports success without a file", label)
            continue
        if r & 1:
            k = F.N(c.E.load(s, n, 4, 32)) if not any(x is None for x in s.mem[n.o].cells) else UNDEF
            if k is UNDEF: found(out, F, "undef", fn, "reports success without the count", label); continue
            if not isinstance(k, int): continue
            if sgn(k, 32) < 0 or k > cap: found(out, F, "count", fn, "reports %d octets in a buffer of %d" % (sgn(k, 32), cap), label); continue
            if m.posof(s) != 0: found(out, F, "pos", fn, "does not leave the stream at its start", label)
            if want is None: continue
            got = [F.N(c.E.load(s, Ptr(m.b, i), 1, 8)) for i in range(k)]
            if squeeze(got) != squeeze(want): found(out, F, "value", fn, "loads %r instead of %r" % ("".join(chr(x) if isinstance(x, int) else "?" for x in got), "".join(map(chr, want))), label)
        elif want is not None and cap >= len(cells) + 1: found(out, F, "reject", fn, "fails although the text fits", label)
    return out, np_
def squeeze(t):
    """without the white space between two tags"""
    out = []; i = 0
    while i < len(t):
        j = i
        while j < len(t) and t[j] in (32, 9, 10, 13): j += 1
        if j > i and (not out or out[-1] == 62) and (j == len(t) or t[j] == 60): i = j; continue
        out.append(t[i]); i += 1
    return out
FILES_ = (      # a file, and what of it is loaded
    ("", ""), ("<a/>", "<a/>"), ("<a>1</a>", "<a>1</a>"), ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<a>x y</a>\n", "<a>x y</a>"),
    ("<!-- c - > > < -->\n<a><b>1</b> <b>2</b>\n<c></c></a>", "<a><b>1</b><b>2</b><c></c></a>"), ("<a>\n  <b>1 2</b>\n  <c> z </c>\n</a>", "<a><b>1 2</b><c> z </c></a>"),
    ("<a>q<!-- no --><b>1</b>r<c>3</c>s</a>", "<a><b>1</b><c>3</c></a>"), ("<a><b>1</b><!-- x --><c>2</c><!-- y --></a><!-- z -->", "<a><b>1</b><c>2</c></a>"),
    ("<a>12<!-- x -->34</a>", "<a>1234</a>"), ("junk <a k=\"v\"><b></b></a> junk", "<a k=\"v\"><b></b></a>"), ("<?p a?b > ?><a>?></a>", "<a>?></a>"), ("<a>1-2->3</a>", "<a>1-2->3</a>"),
    ("<a><b><true/></b></a>", "<a><b><true/></b></a>"), ("<a><d><b>1</b><!-- x --></d> q </a>", "<a><d><b>1</b></d></a>"), ("<!-- p --><a><d>5<!-- y --></d>r<!-- x -->s<b>1</b><!-- x --> q </a>", "<a><d>5</d><b>1</b></a>"))
def xload(g):
    D = g.deep
    T = lambda t: [ord(x) for x in t]
    fn = "LoadXmlFile"
    g.add(fn, loadxml, [], 8, None, "no file", True)
    for t, w in FILES_:
        b = T(t)
        for cap in sorted({0, 1, len(w) - 1, len(w), len(w) + 1, len(t) + 1, len(t) + 9} - {-1}): g.add(fn, loadxml, b, cap, T(w), "file %r, %d octets of room" % (t, cap))
        for k in range(len(b)):
            g.add(fn, loadxml, b[:k], len(b) + 2, None, "file %r cut at %d" % (t, k))
            for cap in ((len(b) + 2,) if not D else (3, len(w) - 1, len(b) + 2)): g.add(fn, loadxml, b[:k] + [None] + b[k + 1:], cap, None, "file %r, any octet at %d" % (t, k))
    for n in (4094, 4095, 4096, 4097):
        for post in ("</a>", "<b/></a>"): g.add(fn, loadxml, T("<a>") + [49] * n + T(post), n + 40, T("<a>" + "1" * n + "</a>") if post == "</a>" and n < 4096 else None, "content of %d octets before %s" % (n, post))

GENS = {"ber": (ber, GenY), "xer": (xer, GenY)}
FILES3 = CORE + ["asn1crt_encoding_ber.c", "asn1crt_encoding_xer.c"]
KEEP3 = ACCESS.replace("vf_keep[] = {", "vf_keep[] = {(void*)0,")
def context3(**kw):
    return Ctx(runtime_module(FILES3, extra_src=ACCESS + LIBC, **kw), overrides=OVER)
