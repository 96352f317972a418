"""C24: scale bars.  A grid of image sizes, channels, pixel sizes over nine decades, zooms and
options; bar length, label and image area are read back from the picture."""
import itertools, os
import numpy as np
from vlib import core
from vlib.idx import quiet

SEQ = [1, 2, 5, 10, 20, 25, 50, 100, 200, 250, 500]
SIZES = [(s * f, "%d %s" % (s, u)) for f, u in ((1e-3, "nm"), (1.0, "\u03bcm"), (1e3, "mm")) for s in SEQ]


def expected(width, step):
    m = width * step * 0.333
    c = [x for x in SIZES if x[0] < m * (1 - 1e-9)]
    return max(c) if c else None


def near_tie(width, step):
    """sizes within rounding of the limit may fall on either side"""
    m = width * step * 0.333
    return any(abs(s / m - 1) < 1e-6 for s, _ in SIZES)


def dark_run(row):
    i = 0
    while i < len(row) and row[i]:
        i += 1
    j = i
    while j < len(row) and not row[j]:
        j += 1
    return i, j - i


def crop(b):
    y, x = np.nonzero(b)
    return b[y.min():y.max() + 1, x.min():x.max() + 1] if len(y) else b[:0, :0]


def render(text, size, font):
    from PIL import Image, ImageDraw, ImageFont
    im = Image.new("L", (size * 14, size * 3), 0)
    ImageDraw.Draw(im).text((size, size // 2), text, fill=255, font=ImageFont.truetype(font, size))
    return crop(np.array(im) > 127)


def differ(a, b):
    h, w = max(a.shape[0], b.shape[0]), max(a.shape[1], b.shape[1])
    A, B = np.zeros((h, w), bool), np.zeros((h, w), bool)
    A[:a.shape[0], :a.shape[1]] = a
    B[:b.shape[0], :b.shape[1]] = b
    return (A ^ B).sum() / max(1, B.sum())


def body(ck):
    from pyebsdindex.EBSDImage import micronbar as M
    import pyebsdindex
    font = os.path.join(os.path.dirname(pyebsdindex.__file__), "EBSDImage", "OpenSans-Bold.ttf")
    steps = [10.0 ** e * m for e in range(-3, 4) for m in ((1, 2.5, 3.3, 7) if not core.THOROUGH else (1, 1.5, 2, 2.5, 3.3, 4.9, 7, 9.1))]
    ck.section("length and image")
    labels = {}
    for (h, w), ch, step in itertools.product(((12, 60), (40, 25), (100, 333), (30, 700), (7, 1500)), (0, 1, 3, 4), steps):
        if ch in (1, 4) and w not in (60, 333):
            continue
        e = expected(w, step)
        if e is None or near_tie(w, step):
            continue
        shape = (h, w) if ch == 0 else (h, w, ch)
        base = (np.arange(int(np.prod(shape))) * 37 % 101 / 100.0).reshape(shape)
        for minor, rescale, (lo, hi), dt in itertools.product((False, True), (True, False), ((0.0, 1.0), (-3.0, 17.0), (0.2, 0.7)), ("f8", "f4", "u1")):
            if (minor and (dt != "f8" or lo != 0.0)) or (dt == "u1" and lo != 0.0) or (dt == "f4" and step not in (1.0, 2.5)) or (lo != 0.0 and ch > 1):
                continue
            im = (base * (hi - lo) + lo) * (255 if dt == "u1" else 1)
            im = im.astype(dt)
            keep = im.copy()
            key = "rescale%d" % rescale
            ck.case((h, w, ch, step, minor, rescale, lo, dt))
            with quiet():
                good, out = ck.call(key, M.addmicronbar, im, step, addminor=minor, rescale=rescale)
            if not good:
                continue
            out = np.asarray(out)
            ck.ok(np.array_equal(im, keep), key + ":input", "the given image changed")
            if not ck.ok(out.ndim == (2 if ch < 2 else 3) and out.shape[1] == w and out.shape[0] > h and (ch < 2 or out.shape[2] == ch), key + ":shape", "output %s for input %s" % (out.shape, shape)):
                continue
            f = im.astype(float).reshape((h, w) if ch < 2 else shape)
            if rescale:
                f = (f - f.min()) / (f.max() - f.min())
            top = out[:h]
            ck.ok(np.abs(top - f).max() <= (2e-3 if rescale else 1e-3 * max(1, abs(f).max())), key + ":image", lambda: "image area differs by %g" % np.abs(top - f).max())
            bar = out[h:] if ch < 2 else out[h:, :, 0]
            if ch > 1:
                ck.ok(all(np.array_equal(bar, out[h:, :, k]) for k in range(ch)), key + ":channels", "the bar differs between channels")
            a, b = float(top.min()), float(top.max())
            ck.ok(abs(bar.max() - b) < 1e-3 * max(1, abs(b)) and abs(bar.min() - a) < 1e-3 * max(1, abs(a)) + 1e-3, key + ":levels", "bar between %g and %g, image between %g and %g" % (bar.min(), bar.max(), a, b))
            if b - a < 1e-6:
                continue
            t = (bar - a) / (b - a) > 0.5
            hb = bar.shape[0]
            x0, L = dark_run(t[hb // 2])
            want = e[0] / step
            tol = 1.01 if not minor else 3.01
            ck.ok(want - tol <= L <= want + 0.01 + (0 if not minor else 2), key + ":length", "image %d px of %g um: bar of %d px, %s is %.2f px" % (w, step, L, e[1], want))
            ck.outcome((L, e[1]))
            if not minor and dt == "f8" and w >= 700 and ch == 0 and rescale and lo == 0.0:
                labels[(w, step)] = (e[1], crop(~t[:, x0 + L + 1:]), hb)
    ck.section("labels")
    for (w, step), (text, got, hb) in labels.items():
        size = int(round(int(hb * 0.5) * 1.4))
        best, name = 9, None
        for sz in (size - 1, size, size + 1):
            for _, lab in SIZES:
                v = differ(got, render(lab, sz, font))
                if v < best:
                    best, name = v, lab
        ck.case((w, step, text))
        ck.state(text)
        ck.ok(name == text or differ(got, render(text, size, font)) < 0.02, "label", "image %d px of %g um: the bar is labelled %r (mismatch %.2f), its length is %s" % (w, step, name, best, text))
    ck.section("zoom")
    for (h, w), z, step in itertools.product(((10, 40), (24, 60), (33, 100)), (2, 3, 10), (0.05, 1.0, 40.0)):
        im = (np.arange(h * w * 3) * 37 % 101 / 100.0).reshape(h, w, 3)
        ck.case((h, w, z, step))
        good, out = ck.call("zoom", M.addmicronbar, im, step, rescale=False, zoom_xsize=z * w)
        e = expected(z * w, step / z)
        if not good or e is None:
            continue
        if ck.ok(out.shape[1] == z * w and out.shape[2] == 3, "zoom:shape", "%s" % (out.shape,)):
            ck.ok(np.allclose(out[:z * h], np.repeat(np.repeat(im, z, 0), z, 1), atol=1e-5), "zoom:image", "the enlarged image is not the image with larger pixels")
            t = out[z * h:, :, 0] > 0.5
            _, L = dark_run(t[t.shape[0] // 2])
            ck.ok(e[0] * z / step - 1.01 <= L <= e[0] * z / step + 0.01 or near_tie(w, step), "zoom:length", "%d px bar, %s is %.2f px" % (L, e[1], e[0] * z / step))
    ck.section("flat images")
    for v, rescale, ch in itertools.product((0.0, 0.5, 1.0), (True, False), (0, 3)):
        im = np.full((20, 100) if not ch else (20, 100, 3), v)
        ck.case(("flat", v, rescale, ch))
        with np.errstate(all="ignore"), quiet():
            good, out = ck.call("flat", M.addmicronbar, im, 1.0, rescale=rescale)
        if good:
            ck.ok(np.isfinite(out).all(), "flat:finite", "an image of one value %g gives nan" % v)
            ck.ok(rescale or np.allclose(out[:20], v), "flat:image", "image changed")
            ck.ok(out.min() >= 0 and out.max() <= 1, "flat:range", "values between %g and %g" % (out.min(), out.max()))


core.main("C24", "exploration", "every image size x channel count x pixel size over seven decades x option of a grid; bar, label and image area read back from the output; "
          "distinct = distinct (bar length, label)", body, max_violations=12)
