"""A pyopencl stand-in: the kernels of /repo are compiled by clang as OpenCL C for the CPU and
run work item by work item.  What a device may choose is a knob here: the order of the work
items, when queued commands run (at once, or only when the host waits for them) and what memory
holds before it is written.  Out-of-range writes are seen by guard zones around every buffer.
With K.watch every load and store of the kernels is recorded (the compiler's address instrumentation
calls our functions): accesses outside the buffers and pairs of work items of which one writes what
the other reads or writes.  Without such a pair all interleavings of the work items are equivalent."""
import ctypes, hashlib, math, os, re, subprocess, sys, types
import numpy as np

GUARD = 1024
INTS = {"char": "uchar", "uchar": "uchar", "short": "ushort", "ushort": "ushort", "int": "uint", "uint": "uint", "long": "ulong", "ulong": "ulong"}
MANGLED = {"char": "c", "uchar": "h", "short": "s", "ushort": "t", "int": "i", "uint": "j", "long": "l", "ulong": "m", "float": "f", "double": "d"}
CTYPE = {"uchar": "unsigned char", "ushort": "unsigned short", "uint": "unsigned", "ulong": "unsigned long"}


def runtime():
    """The built-in functions of OpenCL C, as C."""
    o = ["typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong; typedef unsigned long size_t;",
         "#define OV __attribute__((overloadable))", "extern ulong ID[3], SZ[3];"]
    NS = (2, 3, 4, 8, 16)
    types = list(INTS) + ["float", "double"]
    for t in types:
        for n in NS:
            o.append("typedef %s %s%d __attribute__((ext_vector_type(%d)));" % (t, t, n, n))
    o.append("""
ulong OV get_global_id(uint d) { return d < 3 ? ID[d] : 0; }
ulong OV get_global_size(uint d) { return d < 3 ? SZ[d] : 1; }
ulong OV get_local_id(uint d) { return 0; }
ulong OV get_local_size(uint d) { return 1; }
ulong OV get_group_id(uint d) { return d < 3 ? ID[d] : 0; }
ulong OV get_num_groups(uint d) { return d < 3 ? SZ[d] : 1; }
ulong OV get_global_offset(uint d) { return 0; }
uint OV get_work_dim(void) { return 3; }
void OV barrier(uint f) {} void OV mem_fence(uint f) {} void OV read_mem_fence(uint f) {} void OV write_mem_fence(uint f) {}""")

    def each(ret, name, args, expr, t, n):
        """A function, for scalars (n = 1) or place by place for vectors."""
        ty = t if n == 1 else t + str(n)
        rt = ret if n == 1 else ret + str(n)
        pars = ", ".join("%s %s" % (ty, a) for a in args)
        if n == 1:
            o.append("%s OV %s(%s) { return %s; }" % (rt, name, pars, expr))
        else:
            e = re.sub(r"\b([%s])\b" % "".join(args), r"\1[k]", expr)
            o.append("%s OV %s(%s) { %s r; for (int k = 0; k < %d; ++k) r[k] = %s; return r; }" % (rt, name, pars, rt, n, e))
    for f, q in (("float", "f"), ("double", "")):
        m = lambda n: "M" + n + q
        for n in "sqrt exp exp2 log log2 log10 log1p expm1 sin cos tan asin acos atan sinh cosh tanh floor ceil round rint trunc fabs cbrt".split():
            o.append("extern %s %s(%s) __asm__(\"%s\");" % (f, m(n), f, n + q))
        for n in "pow fmod atan2 hypot fdim copysign fmax fmin remainder".split():
            o.append("extern %s %s(%s, %s) __asm__(\"%s\");" % (f, m(n), f, f, n + q))
        o.append("extern %s %s(%s, %s, %s) __asm__(\"fma%s\");" % (f, m("fma"), f, f, f, q))
        for n in (1,) + NS:
            for x in "sqrt exp exp2 log log2 log10 log1p expm1 sin cos tan asin acos atan sinh cosh tanh floor ceil round rint trunc fabs cbrt".split():
                call = "__builtin_%s%s" % (x, q) if x in ("sqrt", "floor", "ceil", "round", "rint", "trunc", "fabs") else m(x)
                each(f, x, "a", call + "(a)", f, n)
                if f == "float" and x in "sqrt exp exp2 log log2 log10 sin cos tan".split():
                    each(f, "native_" + x, "a", call + "(a)", f, n)
                    each(f, "half_" + x, "a", call + "(a)", f, n)
            each(f, "rsqrt", "a", "1 / __builtin_sqrt%s(a)" % q, f, n)
            if f == "float":
                for w in ("native_", "half_"):
                    each(f, w + "rsqrt", "a", "1 / __builtin_sqrtf(a)", f, n)
                    each(f, w + "divide", "ab", "a / b", f, n)
                    each(f, w + "recip", "a", "1 / a", f, n)
                    each(f, w + "powr", "ab", "Mpowf(a, b)", f, n)
            each(f, "sign", "a", "a > 0 ? 1 : a < 0 ? -1 : a", f, n)
            each(f, "degrees", "a", "a * (%s)57.29577951308232" % f, f, n)
            each(f, "radians", "a", "a * (%s)0.017453292519943295" % f, f, n)
            for x in "pow fmod atan2 hypot fdim copysign remainder".split():
                each(f, x, "ab", m(x) + "(a, b)", f, n)
            each(f, "powr", "ab", m("pow") + "(a, b)", f, n)
            if n == 1:
                each(f, "max", "ab", "a < b ? b : a", f, n)
                each(f, "min", "ab", "b < a ? b : a", f, n)
            else:  # (bitwise, for speed)
                v, w = f + str(n), ("int" if f == "float" else "long") + str(n)
                for x, c in (("max", "a < b"), ("min", "b < a")):
                    o.append("%s OV %s(%s a, %s b) { %s m = %s; return (%s)((m & (%s)b) | (~m & (%s)a)); }" % (v, x, v, v, w, c, v, w, w))
            each(f, "fmax", "ab", "a < b || a != a ? b : a", f, n)
            each(f, "fmin", "ab", "b < a || a != a ? b : a", f, n)
            each(f, "step", "ab", "b < a ? 0 : 1", f, n)
            each(f, "fma", "abc", "__builtin_fma%s(a, b, c)" % q, f, n)
            each(f, "mad", "abc", "a * b + c", f, n)
            each(f, "mix", "abc", "a + (b - a) * c", f, n)
            each(f, "clamp", "abc", "a < b ? b : a > c ? c : a", f, n)
            if n > 1:
                v = f + str(n)
                for x in ("max", "min", "fmax", "fmin"):
                    o.append("%s OV %s(%s a, %s b) { return %s(a, (%s)b); }" % (v, x, v, f, x, v))
                o.append("%s OV clamp(%s a, %s b, %s c) { return clamp(a, (%s)b, (%s)c); }" % (v, v, f, f, v, v))
                o.append("%s OV mix(%s a, %s b, %s c) { return mix(a, b, (%s)c); }" % (v, v, v, f, v))
            for x, e in (("isequal", "a == b"), ("isnotequal", "a != b"), ("isgreater", "a > b"), ("isgreaterequal", "a >= b"), ("isless", "a < b"),
                         ("islessequal", "a <= b"), ("islessgreater", "a < b || a > b")):
                it = "int" if n == 1 or f == "float" else "long"
                each(it, x, "ab", e if n == 1 else "-(%s)" % e, f, n)
            for x, e in (("isnan", "a != a"), ("isinf", "a - a != a - a && a == a"), ("isfinite", "a - a == 0"), ("signbit", "__builtin_signbit(a)")):
                it = "int" if n == 1 or f == "float" else "long"
                each(it, x, "a", e if n == 1 else "-!!(%s)" % e, f, n)
        for n in (1, 2, 3, 4):
            v = f + (str(n) if n > 1 else "")
            add = " + ".join("a[%d] * b[%d]" % (k, k) for k in range(n)) if n > 1 else "a * b"
            o.append("%s OV dot(%s a, %s b) { return %s; }" % (f, v, v, add))
            o.append("%s OV length(%s a) { return __builtin_sqrt%s(dot(a, a)); }" % (f, v, q))
            o.append("%s OV distance(%s a, %s b) { return length(a - b); }" % (f, v, v))
            o.append("%s OV normalize(%s a) { return a / length(a); }" % (v, v))
    for t, u in INTS.items():
        for n in (1,) + NS:
            v = t + (str(n) if n > 1 else "")
            each(t, "max", "ab", "a < b ? b : a", t, n)
            each(t, "min", "ab", "b < a ? b : a", t, n)
            each(t, "clamp", "abc", "a < b ? b : a > c ? c : a", t, n)
            each(u, "abs", "a", "a < 0 ? -(%s)a : a" % u, t, n)
            each(u, "abs_diff", "ab", "a < b ? (%s)b - (%s)a : (%s)a - (%s)b" % (u, u, u, u), t, n)
            if t in ("int", "uint"):
                each(t, "mul24", "ab", "a * b", t, n)
                each(t, "mad24", "abc", "a * b + c", t, n)
            if n > 1:
                for x in ("max", "min"):
                    o.append("%s OV %s(%s a, %s b) { return %s(a, (%s)b); }" % (v, x, v, t, x, v))
                o.append("%s OV clamp(%s a, %s b, %s c) { return clamp(a, (%s)b, (%s)c); }" % (v, v, t, t, v, v))
            if t in ("char", "short", "int", "long"):
                msb = "a < 0" if n == 1 else None
                each("int", "any", "a", "a < 0" if False else "a < 0", t, 1) if n == 1 else o.append(
                    "int OV any(%s a) { int r = 0; for (int k = 0; k < %d; ++k) r |= a[k] < 0; return r; }" % (v, n))
                each("int", "all", "a", "a < 0", t, 1) if n == 1 else o.append(
                    "int OV all(%s a) { int r = 1; for (int k = 0; k < %d; ++k) r &= a[k] < 0; return r; }" % (v, n))
    size = {"char": 1, "uchar": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "float": 4, "long": 8, "ulong": 8, "double": 8}
    for t in types:
        for c in types[:8]:
            if size[c] != size[t]:
                continue
            for n in (1,) + NS:
                v, w = (t + str(n), c + str(n)) if n > 1 else (t, c)
                if n == 1:
                    o.append("%s OV select(%s a, %s b, %s c) { return c ? b : a; }" % (v, v, v, w))
                elif c in ("int", "long"):
                    o.append("%s OV select(%s a, %s b, %s c) { %s m = c >> %d; return (%s)((m & (%s)b) | (~m & (%s)a)); }" % (v, v, v, w, w, 8 * size[c] - 1, v, w, w))
                else:
                    sign = "(%s)c[k] < 0" % {1: "signed char", 2: "short", 4: "int", 8: "long"}[size[c]]
                    o.append("%s OV select(%s a, %s b, %s c) { %s r; for (int k = 0; k < %d; ++k) r[k] = %s ? b[k] : a[k]; return r; }" % (v, v, v, w, v, n, sign))
        for n in (1,) + NS:
            sfx = str(n) if n > 1 else ""
            for g in types:
                for mode in ("", "_sat", "_rte", "_rtz", "_rtp", "_rtn", "_sat_rte"):
                    if mode and (t in ("float", "double") or g not in ("float", "double") and mode != "_sat"):
                        continue
                    val = "a[k]" if n > 1 else "a"
                    fn = {"_rte": "rint", "_sat_rte": "rint", "_rtp": "ceil", "_rtn": "floor"}.get(mode)
                    if fn:
                        val = "__builtin_%s((double)%s)" % (fn, val)
                    if "_sat" in mode:
                        bits = 8 * size[t]
                        lo, hi = (0, 2 ** bits - 1) if t[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
                        if bits == 64:
                            continue
                        val = "((double)%s < %d. ? %d. : (double)%s > %d. ? %d. : (double)%s)" % (val, lo, lo, val, hi, hi, val)
                    if n == 1:
                        o.append("%s OV convert_%s%s(%s a) { return (%s)%s; }" % (t, t, mode, g, t, val))
                    else:
                        o.append("%s OV convert_%s%s(%s a) { %s r; for (int k = 0; k < %d; ++k) r[k] = (%s)%s; return r; }" % (t + sfx, t + sfx, mode, g + sfx, t + sfx, n, t, val))
        for n in NS:
            v = "Dv%d_%s" % (n, MANGLED[t])
            ty = t + str(n)
            o.append("typedef %s %su __attribute__((ext_vector_type(%d), aligned(%d)));" % (t, ty, n, size[t]))
            for sp in ("CLglobal", "CLlocal", "CLconstant", "CLprivate", "CLgeneric"):
                q = "U%d%s" % (len(sp), sp)
                if n == 3:
                    o.append("%s vload3%s%s(ulong o, const %s *p) __asm__(\"_Z6vload3mP%sK%s\");" % (ty, sp, t, t, q, MANGLED[t]))
                    o.append("%s vload3%s%s(ulong o, const %s *p) { %s r; for (int k = 0; k < 3; ++k) r[k] = p[3 * o + k]; return r; }" % (ty, sp, t, t, ty))
                    o.append("void vstore3%s%s(%s v, ulong o, %s *p) __asm__(\"_Z7vstore3%smP%s%s\");" % (sp, t, ty, t, v, q, MANGLED[t]))
                    o.append("void vstore3%s%s(%s v, ulong o, %s *p) { for (int k = 0; k < 3; ++k) p[3 * o + k] = v[k]; }" % (sp, t, ty, t))
                    continue
                nm = "vload%d" % n
                o.append("%s %s%s%s(ulong o, const %s *p) __asm__(\"_Z%d%smP%sK%s\");" % (ty, nm, sp, t, t, len(nm), nm, q, MANGLED[t]))
                o.append("%s %s%s%s(ulong o, const %s *p) { return *(const %su *)(p + %d * o); }" % (ty, nm, sp, t, t, ty, n))
                nm = "vstore%d" % n
                o.append("void %s%s%s(%s v, ulong o, %s *p) __asm__(\"_Z%d%s%smP%s%s\");" % (nm, sp, t, ty, t, len(nm), nm, v, q, MANGLED[t]))
                o.append("void %s%s%s(%s v, ulong o, %s *p) { *(%su *)(p + %d * o) = v; }" % (nm, sp, t, ty, t, ty, n))
    for t in ("int", "uint"):
        c = MANGLED[t]
        for sp in ("CLglobal", "CLlocal"):
            for nm, e in (("add", "x + v"), ("sub", "x - v"), ("xchg", "v"), ("min", "x < v ? x : v"), ("max", "x > v ? x : v"), ("and", "x & v"), ("or", "x | v"), ("xor", "x ^ v")):
                for pre in ("atomic_", "atom_"):
                    f = pre + nm
                    o.append("%s %s%s%s(%s *p, %s v) __asm__(\"_Z%d%sPU%d%sV%s%s\");" % (t, f, sp, t, t, t, len(f), f, len(sp), sp, c, c))
                    o.append("%s %s%s%s(%s *p, %s v) { %s x = *p; *p = %s; return x; }" % (t, f, sp, t, t, t, t, e))
            for f, e in (("atomic_inc", "x + 1"), ("atomic_dec", "x - 1"), ("atom_inc", "x + 1"), ("atom_dec", "x - 1")):
                o.append("%s %s%s%s(%s *p) __asm__(\"_Z%d%sPU%d%sV%s\");" % (t, f, sp, t, t, len(f), f, len(sp), sp, c))
                o.append("%s %s%s%s(%s *p) { %s x = *p; *p = %s; return x; }" % (t, f, sp, t, t, t, e))
    return "\n".join(o) + "\n"


RT = runtime()


WATCH = r"""
#include <string.h>
#define GUARD %d
static struct { ulong base, size; unsigned *wr, *rd; } B[32];
static int nB;
static ulong cur;
long bad[5 * 16]; int nbad;
ulong naccess;
void watch_start(int n, ulong *base, ulong *size, ulong *shadow) {
  nB = n; nbad = 0;
  for (int i = 0; i < n; ++i) { B[i].base = base[i]; B[i].size = size[i]; B[i].wr = (unsigned *)shadow[i]; B[i].rd = B[i].wr + size[i]; }
}
static void note(long kind, long buf, long off, long item, long other) {
  if (nbad < 16) { long *b = bad + 5 * nbad++; b[0] = kind; b[1] = buf; b[2] = off; b[3] = item; b[4] = other; }
}
static void acc(ulong a, ulong n, int w) {
  for (int i = 0; i < nB; ++i) {
    if (a + n <= B[i].base - GUARD || a >= B[i].base + B[i].size + GUARD) continue;
    ++naccess;
    if (a < B[i].base || a + n > B[i].base + B[i].size) { note(w ? 2 : 1, i, (long)(a - B[i].base), cur - 1, 0); return; }
    for (ulong o = a - B[i].base, e = o + n; o < e; ++o) {
      unsigned x = B[i].wr[o], y = B[i].rd[o];
      if (x && x != cur) { note(w ? 4 : 3, i, o, cur - 1, (long)x - 1); return; }
      if (w) {
        if (y && y != cur) { note(5, i, o, cur - 1, y == ~0u ? -1 : (long)y - 1); return; }
        B[i].wr[o] = cur;
      } else
        B[i].rd[o] = !y || y == cur ? cur : ~0u;
    }
    return;
  }
}
#define F(n) void __asan_load##n##_noabort(ulong a) { acc(a, n, 0); } void __asan_store##n##_noabort(ulong a) { acc(a, n, 1); }
F(1) F(2) F(4) F(8) F(16)
void __asan_loadN_noabort(ulong a, ulong n) { acc(a, n, 0); }
void __asan_storeN_noabort(ulong a, ulong n) { acc(a, n, 1); }
void *__asan_memset(void *d, int c, ulong n) { acc((ulong)d, n, 1); return memset(d, c, n); }
void *__asan_memcpy(void *d, void *s, ulong n) { acc((ulong)s, n, 0); acc((ulong)d, n, 1); return memcpy(d, s, n); }
void *__asan_memmove(void *d, void *s, ulong n) { acc((ulong)s, n, 0); acc((ulong)d, n, 1); return memmove(d, s, n); }
void __asan_handle_no_return(void) {}
""" % GUARD
KIND = {1: "reads outside the memory", 2: "writes outside the memory", 3: "reads what another work item writes", 4: "writes what another work item writes",
        5: "writes what another work item reads"}


class Error(Exception):
    pass


class LogicError(Error):
    pass


class MemoryError_(Error):
    pass


class Knobs:
    order = "fwd"      # order of the work items: fwd, rev, inter (a stride through all of them)
    lazy = False       # queued commands run only when the host waits
    fill = 0xC3        # what memory holds before it is written
    watch = False      # record every access of the kernels
    accesses = 0       # accesses recorded
    kernels = 0        # kernels run
    items = 0          # work items run
    calls = 0          # calls that may fail
    noop = None        # f(kernel) -> True: the device does nothing, without an error
    fail = None        # f(what is called, number of the call) -> True: the device reports an error
    missing = []       # names asked of the stand-in that it does not have


K = Knobs()


def may_fail(what):
    K.calls += 1
    if K.fail is not None and K.fail(what, K.calls):
        raise (MemoryError_ if what == "Buffer" else Error)("%s: OUT_OF_RESOURCES (injected)" % what)


def walk(n):
    """First work item and stride."""
    if K.order == "fwd" or n == 1:
        return 0, 1
    if K.order == "rev":
        return n - 1, n - 1
    st = max(1, int(n * .618))
    while math.gcd(st, n) != 1:
        st += 1
    return n // 3, st


# ---- platform ------------------------------------------------------------------------
class device_type:
    CPU, GPU, ALL = 2, 4, 0xFFFFFFFF


class device_info:
    MAX_WORK_GROUP_SIZE, NAME = 0x1004, 0x102B


class mem_flags:
    READ_WRITE, WRITE_ONLY, READ_ONLY, USE_HOST_PTR, ALLOC_HOST_PTR, COPY_HOST_PTR, HOST_NO_ACCESS = 1, 2, 4, 8, 16, 32, 512


class Device:
    def __init__(self, mem, unified):
        self.max_mem_alloc_size, self.global_mem_size, self.host_unified_memory, self.name = mem, 4 * mem, unified, "stand-in"

    def get_info(self, w):
        return {device_info.MAX_WORK_GROUP_SIZE: 256, device_info.NAME: self.name}[w]


class Platform:
    def __init__(self, devices):
        self.devices = devices

    def get_devices(self, device_type=None):
        return list(self.devices) if device_type != 2 else []


PLATFORMS = []


def get_platforms():
    return list(PLATFORMS)


class Context:
    def __init__(self, devices=None):
        self.devices = list(devices)


class Event:
    def wait(self):
        pass


class CommandQueue:
    def __init__(self, ctx, device=None):
        self.context, self.device, self.pending = ctx, device or ctx.devices[0], []

    def put(self, f):
        if K.lazy:
            self.pending.append(f)
        else:
            f()
        return Event()

    def flush(self):
        pass

    def finish(self):
        may_fail("finish")
        self.run()

    def run(self):
        todo, self.pending = self.pending, []
        for f in todo:
            f()


# ---- memory --------------------------------------------------------------------------
class Buffer:
    def __init__(self, ctx, flags, size=0, hostbuf=None):
        if not isinstance(ctx, Context):
            raise TypeError("Buffer: no context")
        if hostbuf is not None:
            h = np.asarray(hostbuf)
            if not h.flags.c_contiguous:
                raise LogicError("Buffer: host memory is not contiguous")
            if not flags & (32 | 8):
                raise LogicError("Buffer: INVALID_HOST_PTR")
            size = size or h.nbytes
        if isinstance(size, (float, np.floating)):
            raise TypeError("Buffer: size must be an integer")
        size = int(size)
        if size <= 0:
            raise LogicError("Buffer: INVALID_BUFFER_SIZE")
        if size > ctx.devices[0].max_mem_alloc_size:
            raise MemoryError_("Buffer: MEM_OBJECT_ALLOCATION_FAILURE")
        may_fail("Buffer")
        self.size, self.flags, self.released = size, flags, False
        raw = np.full(size + 2 * GUARD + 64, K.fill, np.uint8)
        o = (-(raw.ctypes.data + GUARD)) % 64 + GUARD
        self._raw, self._o = raw, o
        self.mem = raw[o:o + size]
        raw[o - GUARD:o] = 0x5A
        raw[o + size:o + size + GUARD] = 0x5A
        if K.fill == 0xFF:
            raw[o - GUARD:o] = raw[o + size:o + size + GUARD] = 0x7F
        self._g = raw[o - 1]
        if hostbuf is not None:
            self.mem[:h.nbytes] = h.reshape(-1).view(np.uint8) if h.ndim else np.frombuffer(h.tobytes(), np.uint8)

    def check(self, who):
        o = self._o
        if (self._raw[o - GUARD:o] != self._g).any() or (self._raw[o + self.size:o + self.size + GUARD] != self._g).any():
            raise OutOfRange("%s writes outside a buffer of %d bytes" % (who, self.size))

    def release(self):
        if self.released:
            raise LogicError("release: INVALID_MEM_OBJECT")
        self.released = True


class OutOfRange(BaseException):
    """A kernel wrote outside its buffers (not an Exception: the code falls back on those)."""
    finding = True


class Conflict(BaseException):
    """Two work items of a kernel touch the same memory, or one reads outside its buffers."""
    finding = True


class LocalMemory:
    def __init__(self, size):
        self.size = int(size)


def use(b):
    if b.released:
        raise LogicError("INVALID_MEM_OBJECT (released)")
    return b


def enqueue_copy(queue, dest, src, is_blocking=True, wait_for=None, **k):
    may_fail("enqueue_copy")
    if isinstance(src, Buffer) and isinstance(dest, np.ndarray):
        use(src)
        if dest.nbytes > src.size:
            raise LogicError("enqueue_copy: INVALID_VALUE")
        if not dest.flags.c_contiguous:
            raise LogicError("enqueue_copy: host memory is not contiguous")

        def f():
            dest.reshape(-1).view(np.uint8)[:] = src.mem[:dest.nbytes]
    elif isinstance(dest, Buffer) and isinstance(src, np.ndarray):
        use(dest)
        if src.nbytes > dest.size:
            raise LogicError("enqueue_copy: INVALID_VALUE")

        def f():
            dest.mem[:src.nbytes] = np.ascontiguousarray(src).reshape(-1).view(np.uint8)
    else:
        use(src), use(dest)

        def f():
            dest.mem[:src.size] = src.mem
    e = queue.put(f)
    if is_blocking:
        queue.run()
    return e


def enqueue_fill_buffer(queue, mem, pattern, offset, size, wait_for=None):
    may_fail("enqueue_fill_buffer")
    p = np.frombuffer(np.asarray(pattern).tobytes(), np.uint8)
    use(mem)
    if offset + size > mem.size or size % len(p) or offset % len(p):
        raise LogicError("enqueue_fill_buffer: INVALID_VALUE")

    def f():
        mem.mem[offset:offset + size] = np.tile(p, size // len(p))
    return queue.put(f)


def enqueue_barrier(queue, wait_for=None):
    return Event()


# ---- programs ------------------------------------------------------------------------
CT = {"char": ctypes.c_int8, "uchar": ctypes.c_uint8, "short": ctypes.c_int16, "ushort": ctypes.c_uint16, "int": ctypes.c_int32,
      "uint": ctypes.c_uint32, "long": ctypes.c_int64, "ulong": ctypes.c_uint64, "float": ctypes.c_float, "double": ctypes.c_double,
      "int long unsigned": ctypes.c_uint64, "long unsigned": ctypes.c_uint64, "int unsigned": ctypes.c_uint32, "int long": ctypes.c_int64,
      "char unsigned": ctypes.c_uint8}
CNAME = {ctypes.c_int8: "signed char", ctypes.c_uint8: "unsigned char", ctypes.c_int16: "short", ctypes.c_uint16: "unsigned short", ctypes.c_int32: "int",
         ctypes.c_uint32: "unsigned", ctypes.c_int64: "long", ctypes.c_uint64: "unsigned long", ctypes.c_float: "float", ctypes.c_double: "double"}
_libs = {}


def signature(src):
    s = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
    s = re.sub(r"//[^\n]*", "", s)
    out = {}
    for m in re.finditer(r"(?:__)?kernel\s+void\s+(\w+)\s*\(([^)]*)\)", s):
        pars = []
        for p in m.group(2).split(","):
            p = " ".join(p.replace("const", " ").replace("*", " * ").replace("restrict", " ").split())
            if "*" in p:
                pars.append("local" if "local" in p.split("*")[0] else "mem")
            else:
                pars.append(CT[" ".join(sorted(p.split(" ")[:-1]))])
        out[m.group(1)] = (pars, " ".join(m.group(2).split()))
    return out


SANITIZE = ["-fsanitize=kernel-address"] + sum((["-mllvm", "-asan-" + o] for o in ("instrumentation-with-call-threshold=0", "stack=0", "globals=0")), [])


def builtins(d, watch):
    """The built-in functions as bitcode, linked into the kernels, so that they are inlined (and watched)."""
    bc = os.path.join(d, "rt%s_%s.bc" % ("w" if watch else "", hashlib.sha1(RT.encode()).hexdigest()[:12]))
    if not os.path.exists(bc):
        t = "%s.%d" % (bc, os.getpid())
        open(t + ".c", "w").write(RT)
        subprocess.run(["clang", "-target", "x86_64-unknown-linux-gnu", "-O1", "-Xclang", "-disable-llvm-passes", "-fPIC", "-fvisibility=hidden", "-w", "-fmax-type-align=4", "-emit-llvm",
                        "-c", t + ".c", "-o", t] + (SANITIZE if watch else []), check=True)
        os.remove(t + ".c")
        os.replace(t, bc)
    return bc


def compile_(src, watch=False):
    h = hashlib.sha1((src + RT + (WATCH if watch else "")).encode()).hexdigest()[:16]
    if h in _libs:
        return _libs[h]
    d = os.environ.get("VERIF_CLDIR") or os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "cl")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, h + ".so")
    sigs = signature(src)
    if not os.path.exists(so):
        t = os.path.join(d, "%s.%d" % (h, os.getpid()))
        # the loop over the work items is compiled apart from the kernels: there get_global_id() is a constant
        wrap = ""
        for n, (pars, text) in sigs.items():
            ty = ["void *" if p in ("mem", "local") else CNAME[p] for p in pars]
            decl = ", ".join("%s a%d" % (x, i) for i, x in enumerate(ty))
            wrap += ("void %s(%s);\nvoid run_%s(%s, ulong nx, ulong ny, ulong nz, ulong start, ulong stride) {\n"
                     "ulong n = nx * ny * nz; SZ[0] = nx; SZ[1] = ny; SZ[2] = nz;\n"
                     "for (ulong k = 0; k < n; ++k) { ulong i = (start + k * stride) %% n;\n"
                     "ID[0] = i %% nx; ID[1] = i / nx %% ny; ID[2] = i / (nx * ny); %s %s(%s); } }\n"
                     % (n, ", ".join(ty), n, decl, "cur = i + 1;" if watch else "", n, ", ".join("a%d" % i for i in range(len(ty)))))
        open(t + ".cl", "w").write(src)
        open(t + "run.c", "w").write("typedef unsigned long ulong;\nulong ID[3], SZ[3];\n" + (WATCH if watch else "") + wrap)
        base = ["clang", "-x", "cl", "-cl-std=CL1.2", "-O2", "-fPIC", "-w", "-fmax-type-align=4", "-target", "x86_64-unknown-linux-gnu", "-c"]
        if watch:
            base += SANITIZE
        r = subprocess.run(base + ["-Xclang", "-mlink-builtin-bitcode", "-Xclang", builtins(d, watch), t + ".cl", "-o", t + ".o"], capture_output=True, text=True)
        if r.returncode:
            raise Error("BUILD_PROGRAM_FAILURE: " + r.stderr[:2000])
        subprocess.run(["clang", "-O2", "-fPIC", "-w", "-c", t + "run.c", "-o", t + "run.o"], check=True)
        r = subprocess.run(["clang", "-shared", "-o", t + ".so", t + ".o", t + "run.o", "-lm", "-Wl,-z,defs"], capture_output=True, text=True)
        if r.returncode:
            K.missing += sorted(set(re.findall(r"undefined reference to `(\w+)'", r.stderr))) or ["link: " + r.stderr[-300:]]
            raise Error("BUILD_PROGRAM_FAILURE: not in the stand-in: %s" % K.missing)
        os.replace(t + ".so", so)
        for e in (".cl", ".o", "run.c", "run.o"):
            os.remove(t + e)
    lib = ctypes.CDLL(so)
    _libs[h] = (lib, sigs)
    return _libs[h]


class Program:
    def __init__(self, ctx, src):
        self.ctx, self.src = ctx, src

    def build(self, options=(), **k):
        self._lib, self._sigs = compile_(self.src)
        return self

    def _watched(self, n, vals, bufs, g):
        lib = compile_(self.src, True)[0]
        bufs = list({id(b): b for b in bufs if isinstance(b, Buffer)}.values())
        shadow = [np.zeros(2 * b.size, np.uint32) for b in bufs]
        U = ctypes.c_uint64 * max(1, len(bufs))
        lib.watch_start(len(bufs), U(*[b.mem.ctypes.data for b in bufs]), U(*[b.size for b in bufs]), U(*[s.ctypes.data for s in shadow]))
        a = ctypes.c_uint64.in_dll(lib, "naccess")
        a0 = a.value
        getattr(lib, "run_" + n)(*vals, *map(ctypes.c_uint64, g), *map(ctypes.c_uint64, walk(g[0] * g[1] * g[2])))
        K.accesses += a.value - a0
        if ctypes.c_int.in_dll(lib, "nbad").value:
            k, b, off, i, j = (ctypes.c_int64 * 5).in_dll(lib, "bad")
            at = lambda i: [i % g[0], i // g[0] % g[1], i // (g[0] * g[1])]
            raise Conflict("%s: work item %s of %s %s (byte %d of a buffer of %d%s)" % (n, at(i), g, KIND[k], off, bufs[b].size, "; the other is %s" % at(j) if k > 2 and j >= 0 else ""))

    def __getattr__(self, n):
        if n.startswith("_") or n not in self._sigs:
            raise AttributeError(n)
        pars = self._sigs[n][0]
        fn = getattr(self._lib, "run_" + n)

        def launch(queue, gsize, lsize, *args, wait_for=None, **kw):
            g = [int(v) for v in gsize] + [1] * (3 - len(gsize))
            if min(g) < 1 or max(g) > 1 << 28:
                raise LogicError("%s: INVALID_GLOBAL_WORK_SIZE %s" % (n, g))
            if len(args) != len(pars):
                raise LogicError("%s: INVALID_KERNEL_ARGS: %d given, %d wanted" % (n, len(args), len(pars)))
            vals, bufs = [], []
            for i, (a, p) in enumerate(zip(args, pars)):
                if p == "mem":
                    if not isinstance(a, Buffer):
                        raise LogicError("%s: argument %d is no memory object" % (n, i))
                    bufs.append(use(a))
                    vals.append(ctypes.c_void_p(a.mem.ctypes.data))
                elif p == "local":
                    if not isinstance(a, LocalMemory):
                        raise LogicError("%s: argument %d is no local memory" % (n, i))
                    b = np.full(a.size + 64, K.fill, np.uint8)
                    bufs.append(b)
                    vals.append(ctypes.c_void_p(b.ctypes.data + (-b.ctypes.data) % 64))
                else:
                    if not isinstance(a, (np.generic, np.ndarray)):  # passed by their bytes
                        raise TypeError("%s: argument %d: not a sized number: %r" % (n, i, a))
                    if a.nbytes != ctypes.sizeof(p):
                        raise LogicError("%s: argument %d: INVALID_ARG_SIZE" % (n, i))
                    vals.append(p.from_buffer_copy(a.tobytes()))
            K.kernels += 1
            may_fail(n)
            K.items += g[0] * g[1] * g[2]

            if K.noop is not None and K.noop(n):
                return queue.put(lambda: None)

            def f():
                if K.watch:
                    return self._watched(n, vals, bufs, g)
                fn(*vals, ctypes.c_uint64(g[0]), ctypes.c_uint64(g[1]), ctypes.c_uint64(g[2]), *map(ctypes.c_uint64, walk(g[0] * g[1] * g[2])))
                for b in bufs:
                    if isinstance(b, Buffer):
                        b.check(n)
            return queue.put(f)
        return launch


def install(devices=((1 << 28, False),)):
    """Put the stand-in in place of pyopencl (before pyebsdindex is imported)."""
    m = types.ModuleType("pyopencl")
    for k, v in list(globals().items()):
        if k in ("device_type", "device_info", "mem_flags", "get_platforms", "Context", "CommandQueue", "Buffer", "LocalMemory", "enqueue_copy",
                 "enqueue_fill_buffer", "enqueue_barrier", "Program", "Error", "LogicError", "Event", "Device", "Platform"):
            setattr(m, k, v)
    m.MemoryError = MemoryError_
    m.RuntimeError = Error
    m.__path__ = []

    def lacks(name):
        if not name.startswith("__"):
            K.missing.append(name)
        raise AttributeError("pyopencl stand-in: no " + name)
    m.__getattr__ = lacks
    PLATFORMS[:] = [Platform([Device(*d) for d in devices])]
    sys.modules["pyopencl"] = m
    return m
