"""Constant tables: closed-form definitions, structural laws, and the reference values of the pinned tree."""
import json, lzma, math, os, re, struct
from vlib.build import Broken, VERIF

REF = os.path.join(VERIF, "known", "tables.json.xz")
sin, cos, pi = math.sin, math.cos, math.pi


# ---------------------------------------------------------------- closed forms
def _i0(x):
    t = r = 1.0
    k = 1
    while t > 1e-20 * r:
        t *= (x / 2 / k) ** 2
        r += t
        k += 1
    return r


def kbd(n, alpha):
    w = [_i0(pi * alpha * math.sqrt(max(0.0, 1 - (2.0 * i / n - 1) ** 2))) for i in range(n + 1)]
    total, acc, out = sum(w), 0.0, []
    for i in range(n):
        acc += w[i]
        out.append(math.sqrt(acc / total))
    return out


def sine(n):
    return [sin(pi / (2 * n) * (i + .5)) for i in range(n)]


P = "ia_core_coder_"
# name -> (function of the number of elements, absolute tolerance, relative tolerance)
FORMULA = {}
for n in (64, 96, 128, 192, 256, 384, 512, 1024):
    FORMULA[P + "sine_window%d" % n] = (sine, 1e-6, 0)
for n in (80, 160):
    FORMULA[P + "sin_window%d" % n] = (sine, 1e-6, 0)
for name, alpha in (("kbd_win4", 6), ("kbd_win16", 6), ("kbd_window64", 6), ("kbd_window96", 6), ("kbd_window128", 6),
                    ("kbd_window192", 6), ("kbd_window256", 6), ("kbd_window384", 5), ("kbd_window512", 5),
                    ("kbd_win1024", 4)):
    FORMULA[P + name] = ((lambda n, a=alpha: kbd(n, a)), 2e-6, 0)
for n in (48, 64, 384, 512):
    FORMULA[P + "pre_post_twid_cos_%d" % n] = (lambda n: [cos(2 * pi * (i + .125) / (4 * n)) for i in range(n)], 1.2e-6, 0)
    FORMULA[P + "pre_post_twid_sin_%d" % n] = (lambda n: [sin(2 * pi * (i + .125) / (4 * n)) for i in range(n)], 1.2e-6, 0)
FORMULA[P + "pre_twid_type2_dct_dst_sin_1024"] = (lambda n: [sin(pi * (i + 1) / (2 * n)) for i in range(n)], 1e-6, 0)
FORMULA[P + "pre_twid_type2_dct_dst_cos_1024"] = (lambda n: [cos(pi * (i + 1) / (2 * n)) for i in range(n)], 1e-6, 0)
for n in (168, 336):
    FORMULA[P + "slpd_sintable_%d" % n] = (lambda n: [sin(pi * i / (n - 1)) for i in range(n)], 1e-6, 0)
FORMULA[P + "pow_table"] = (lambda n: [i ** (4 / 3.0) for i in range(n)], 1e-6, 1e-6)
for name in (P + "pow_2_table", "ia_hoa_pow_2_table"):
    FORMULA[name] = (lambda n: [2.0 ** i for i in range(n)], 0, 1e-6)
for name in (P + "pow_2_inv_table", "ia_hoa_pow_2_inv_table"):
    FORMULA[name] = (lambda n: [2.0 ** -i for i in range(n)], 2e-17, 1e-2)
FORMULA["ia_pow_10_20_slpd_apply"] = (lambda n: [10 ** (-i / 20.0) for i in range(101)] + [10 ** (i / 20.0) for i in range(101)], 1e-6, 1e-4)
FORMULA[P + "pow_igf_whitening"] = (lambda n: [2.0 ** (21 - i * .5) for i in range(n)], 0, 1e-4)
FORMULA[P + "pow_neg_igf_whitening"] = (lambda n: [2.0 ** (21 + i * .5) for i in range(n)], 0, 1e-4)
FORMULA[P + "pow_10_i_by_128"] = (lambda n: [10 ** (i / 28.0) for i in range(n)], 0, 1e-3)
FORMULA[P + "pow10_gain_div28"] = (lambda n: [1024 * 10 ** (i / 28.0) for i in range(n)], 0.75, 0)
FORMULA["impeghd_mc_index_to_sin_alpha"] = (lambda n: [sin(-pi / 2 + pi * i / 64) for i in range(n)], 1e-6, 0)
FORMULA["impeghd_mc_index_to_cos_alpha"] = (lambda n: [cos(-pi / 2 + pi * i / 64) for i in range(n)], 1e-6, 0)
FORMULA["ia_fft_twiddle_table_float"] = (lambda n: [cos(pi * i / 512) for i in range(257)] + [-sin(pi * i / 512) for i in range(257)], 1e-6, 0)


def flat(v):
    if isinstance(v, list):
        for x in v:
            yield from flat(x)
    else:
        yield v


def nums(v):
    return [x for x in flat(v)]


def shape(v):
    return [len(v)] + shape(v[0]) if isinstance(v, list) and v else ([0] if isinstance(v, list) else [])


# ---------------------------------------------------------------- values up to representation
def canon(T, v, depth=0):
    """Value of an initialiser with references replaced by what they refer to (names do not matter)."""
    if isinstance(v, list):
        return [canon(T, x, depth) for x in v]
    if isinstance(v, dict):
        if "str" in v:
            return "s:" + v["str"]
        if v.get("ref") in T and depth < 3:
            return ["@%d" % v.get("off", 0), canon(T, T[v["ref"]]["v"], depth + 1)]
        return "function"
    if isinstance(v, float) or isinstance(v, int):
        return float(v)
    return v


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return x


def same(a, b, path=""):
    """First differing position of two canonical values, or None.  b may be longer at the end (new rows)."""
    if isinstance(a, list) and isinstance(b, list):
        if len(b) < len(a):
            return path or "[]", "%d elements" % len(a), "%d elements" % len(b)
        for i, x in enumerate(a):
            r = same(x, b[i], "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float):
        whole = a == int(a) and b == int(b) if abs(a) < 2 ** 32 > abs(b) else False
        return None if a == b or not whole and f32(a) == f32(b) else (path, a, b)
    return None if a == b else (path, a, b)


def dims(a):
    n = list(flat(a))
    return len(n)


# ---------------------------------------------------------------- structural laws
def prefix_free(codes):
    """codes: list of (length, word).  Returns (duplicate pair or None, Kraft sum)."""
    seen = {}
    kraft = 0.0
    for i, (l, w) in enumerate(codes):
        kraft += 2.0 ** -l
        seen[(l, w)] = i
    for i, (l, w) in enumerate(codes):
        if seen[(l, w)] != i:
            return (i, seen[(l, w)]), kraft
        for k in range(1, l):
            if (k, w >> (l - k)) in seen:
                return (seen[(k, w >> (l - k))], i), kraft
    return None, kraft


def laws(ctx, T, done):
    def bad(name, what):
        ctx.violate(("law", name), "table %s: %s" % (name, what), T[name]["where"])

    def get(name):
        if name in T:
            done.append(name)
            return T[name]["v"]

    # scale factor bands: rising, and ending at the transform length of the table
    for name in list(T):
        m = re.match(r"ia_core_coder_sfb_(\d+)_(\d+)$", name)
        if m:
            v = get(name)
            if any(b <= a for a, b in zip(v, v[1:])):
                bad(name, "band ends do not rise at entry %d" % next(i for i in range(1, len(v)) if v[i] <= v[i - 1]))
            elif v[-1] != int(m.group(2)):
                bad(name, "last band ends at %d, transform length is %s" % (v[-1], m.group(2)))
    v = get(P + "samp_rate_info")
    if v:
        for i, e in enumerate(v):
            for n, ref in ((e[1], e[2]), (e[3], e[4]), (e[-2], e[-1])):
                if isinstance(ref, dict) and ref.get("ref") in T:
                    k = len(T[ref["ref"]]["v"])
                    if n > k:
                        bad(P + "samp_rate_info", "entry %d announces %d bands, %s has %d" % (i, n, ref["ref"], k))
                elif n:
                    bad(P + "samp_rate_info", "entry %d announces %d bands of no table" % (i, n))
        rates = [e[0] for e in v if e[0]]
        if any(b >= a for a, b in zip(rates, rates[1:])):
            bad(P + "samp_rate_info", "sampling rates do not fall")
    # cumulative frequencies of the arithmetic decoder: falling to zero
    for name in (P + "ari_cf_m", P + "ari_cf_r", P + "cf_se_01", P + "cf_se_10", P + "cf_se_02", P + "cf_se_20",
                 P + "cf_se_11"):
        v = get(name)
        if v is None:
            continue
        rows = []

        def walk(x):
            if x and isinstance(x[0], list):
                for y in x:
                    walk(y)
            else:
                rows.append(x)
        walk(v)
        for i, r in enumerate(rows):
            if any(b > a for a, b in zip(r, r[1:])) or r[-1] != 0 or not 0 < r[0] < 16384:
                bad(name, "row %d is not a falling cumulative frequency table ending in 0" % i)
    # prefix codes
    v = get(P + "book_scl_huff_code_word")
    if v:
        c, k = prefix_free([(e[1], e[2]) for e in v])
        if c:
            bad(P + "book_scl_huff_code_word", "code words %d and %d clash" % c)
        elif sorted(e[0] for e in v) != list(range(len(v))):
            bad(P + "book_scl_huff_code_word", "the symbols are not 0..%d, each once" % (len(v) - 1))
        elif abs(k - 1) > 1e-12:
            bad(P + "book_scl_huff_code_word", "the code is not complete (Kraft sum %.9g)" % k)
    for a in ("angle", "scf"):
        c, l = get("impeghd_mc_huff_code_tbl_" + a), get("impeghd_mc_huff_len_tbl_" + a)
        if c and l:
            if len(c) != len(l):
                bad("impeghd_mc_huff_code_tbl_" + a, "has %d codes and %d lengths" % (len(c), len(l)))
                continue
            q, k = prefix_free(list(zip(l, c)))
            if q:
                bad("impeghd_mc_huff_code_tbl_" + a, "code words %d and %d clash" % q)
            elif abs(k - 1) > 1e-12:
                bad("impeghd_mc_huff_code_tbl_" + a, "the code is not complete (Kraft sum %.9g)" % k)
    for name in ("ia_drc_gain_tbls_prof_0_1", "ia_drc_gain_tbls_prof_2", "ia_drc_slope_code_tbl_entries_by_size"):
        v = get(name)
        if v:
            q, k = prefix_free([(e[0], e[1]) for e in v])
            if q:
                bad(name, "code words %d and %d clash" % q)
            elif any(b[0] < a[0] for a, b in zip(v, v[1:])):
                bad(name, "entries are not sorted by code length")
            elif len(set(e[2] for e in v)) != len(v):
                bad(name, "a value has two codes")
    # loudspeaker layouts
    n, m, g = get("impgehd_cicp_get_num_ls"), get("ia_cicp_idx_ls_set_map_tbl"), get("ia_cicp_ls_geo_tbls")
    if n and m and g:
        if len(n) != len(m):
            bad("ia_cicp_idx_ls_set_map_tbl", "%d layouts, %d sizes" % (len(m), len(n)))
        for i, (k, r) in enumerate(zip(n, m)):
            if isinstance(r, dict) and r.get("ref") in T:
                s = T[r["ref"]]["v"]
                done.append(r["ref"])
                if len(s) != k:
                    bad("impgehd_cicp_get_num_ls", "layout %d has %d loudspeakers, size says %d" % (i, len(s), k))
                if len(set(s)) != len(s) or not all(0 <= x < len(g) for x in s):
                    bad(r["ref"], "loudspeakers are not distinct entries of the geometry table")
            elif k:
                bad("impgehd_cicp_get_num_ls", "layout %d has no loudspeaker list but size %d" % (i, k))
        for i, e in enumerate(g):
            if not (-180 <= e[0] <= 180 and -90 <= e[1] <= 90):
                bad("ia_cicp_ls_geo_tbls", "entry %d is no direction" % i)
    # unit vectors: cos and sin tables of the same angles
    pairs = [("ia_hoa_cos_inclinations_%d" % i, "ia_hoa_sin_inclinations_%d" % i) for i in range(1, 7)] + \
            [("ia_cos_search_grid_inclinations_%d" % i, "ia_sin_search_grid_inclinations_%d" % i) for i in (256, 484, 900)] + \
            [("ia_hoa_cos_cicp_speaker_inclinations", "ia_hoa_sin_cicp_speaker_inclinations"),
             ("ia_mixed_rad_twiddle_cos", "ia_mixed_rad_twiddle_sin"), ("ia_rad_3_fft_twiddle_re", "ia_rad_3_fft_twiddle_im")]
    for a, b in pairs:
        x, y = get(a), get(b)
        if x and y:
            for i, (p, q) in enumerate(zip(x, y)):
                if abs(p * p + q * q - 1) > 1e-5:
                    bad(a, "entry %d and that of %s are no cosine and sine of one angle" % (i, b))
                    break


def check(ctx):
    T = json.loads(ctx.tool("rules", "tables", ctx.program().lib))
    if len(T) < 200:
        raise Broken("only %d constant objects found" % len(T))
    done, worst = [], {}
    for name, (f, atol, rtol) in sorted(list(FORMULA.items())):
        if name not in T:
            continue
        v = nums(T[name]["v"])
        ref = f(len(v))
        if len(ref) != len(v):
            ctx.violate(("formula", name), "table %s has %d entries, its definition %d" % (name, len(v), len(ref)), T[name]["where"])
            continue
        done.append(name)
        for i, (a, b) in enumerate(zip(v, ref)):
            if not isinstance(a, (int, float)) or abs(a - b) > atol + rtol * abs(b):
                ctx.violate(("formula", name), "table %s, entry %d is %r; its definition gives %.9g" % (name, i, a, b),
                            T[name]["where"])
                break
    nform = len(done)
    laws(ctx, T, done)
    # the other tables: values of the standard as transcribed in the pinned tree
    ref = json.loads(lzma.open(REF).read())
    cur = {k: canon(T, t["v"]) for k, t in T.items()}
    byval, gone, compared = None, [], 0
    for k, r in sorted(ref.items()):
        if k not in cur:
            if byval is None:
                byval = {json.dumps(v) for v in cur.values()}
            gone.append({"table": k, "same values found under another name": json.dumps(r) in byval})
            continue
        compared += 1
        if any(v["key"].split("|")[1] == k for v in ctx.violations):
            continue
        d = same(r, cur[k])
        if d:
            # regrouped into another shape with the same numbers is the same table
            a, b = list(flat(r)), list(flat(cur[k]))
            if a == b:
                continue
            ctx.violate(("value", k), "table %s%s is %s, the normative value is %s" % (k, d[0], d[2], d[1]), T[k]["where"])
    if compared < len(ref) // 2:
        raise Broken("only %d of %d reference tables exist under their names" % (compared, len(ref)))
    ctx.coverage.update(
        explanation="Every constant object of the library is read from the compiled initialisers: closed-form tables are "
                    "recomputed, code books, band offsets, cumulative frequencies and layouts are checked against the "
                    "laws they must obey, and every table is compared element by element with the reference values.",
        tables=len(T), closed_form=nform, under_a_law=len(set(done)) - nform, compared_with_reference=compared,
        elements=sum(dims(v) for v in cur.values()), gone=gone, samples=sorted(set(done))[:6])
    ctx.assumptions.append("for tables without closed form the reference is the pinned tree's transcription of ISO/IEC 23008-3")
