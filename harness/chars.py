"""Unicode classes of characters, from Python's Unicode database: the oracle
for the character classes of lexical rules (independent of Go's tables).
Only code points whose classes are the same in every Unicode version the two
databases may have are used (see STABLE)."""
import json, os, unicodedata

# code points assigned before Unicode 9 in these blocks; their categories are stable
POOL = sorted(set(
    list(range(0, 0x250)) + list(range(0x370, 0x400, 3)) + list(range(0x400, 0x460, 5)) +
    list(range(0x5D0, 0x5EA, 4)) + list(range(0x627, 0x64B, 5)) + list(range(0x660, 0x66A, 3)) +
    list(range(0x905, 0x93A, 7)) + [0x93E, 0x940, 0x94D, 0x966] +
    [0x1C5, 0x1C8, 0x1F88, 0x2B0, 0x2B1, 0x300, 0x301, 0x488, 0x20DD, 0x20DE] +
    [0x1680, 0x2000, 0x2003, 0x200A, 0x200B, 0x200C, 0x200D, 0x200E, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0xFEFF] +
    [0x2010, 0x2013, 0x2014, 0x2018, 0x2019, 0x201C, 0x201D, 0x203F, 0x2040, 0x207B, 0x2118, 0x212E, 0x309B, 0x309C] +
    [0x20AC, 0x2160, 0x2170, 0x2180, 0x2190, 0x2200, 0x2460, 0x24B6, 0x24D0, 0x3007, 0x3021, 0x2155, 0xBD] +
    [0x4E00, 0x4E01, 0x9FA5, 0xAC00, 0xD7A3, 0x3042, 0x30A2, 0xFF21, 0xFF41, 0xFF10, 0xFF3F] +
    [0x10400, 0x10428, 0x10330, 0x1D400, 0x1D41A, 0x1D7CE, 0x1F600, 0x20000, 0x1F1E6, 0xE000, 0xE0100, 0xFE00, 0x10FFFD] +
    [0x1F100, 0xA8, 0xB4, 0x2C2, 0x5E, 0x60]))

# the ends of the ranges of every property, and their neighbours
MORE = [0x267, 0x268, 0x269, 0x29c, 0x29d, 0x29e, 0x2af, 0x2b2, 0x2b3, 0x2b7, 0x2b8, 0x2b9, 0x2bf, 0x2c0, 0x2c1, 0x2cf, 0x2d0, 0x2d1,
        0x2d2, 0x2df, 0x2e0, 0x2e1, 0x2e3, 0x2e4, 0x2e5, 0x344, 0x345, 0x346, 0x34d, 0x34e, 0x34f, 0x350, 0x351, 0x356, 0x357, 0x358,
        0x35c, 0x35d, 0x35e, 0x361, 0x362, 0x363, 0x364, 0x36e, 0x36f, 0x374, 0x375, 0x37a, 0x37b, 0x37d, 0x37e, 0x386, 0x387, 0x3cf,
        0x3d1, 0x3d2, 0x3d4, 0x3d5, 0x3ef, 0x3f0, 0x3f2, 0x3f3, 0x3f5, 0x3f6, 0x456, 0x457, 0x458, 0x459, 0x588, 0x589, 0x58a, 0x5af,
        0x5b0, 0x5b1, 0x5bc, 0x5bd, 0x5be, 0x5bf, 0x5c0, 0x5c1, 0x5c2, 0x5c3, 0x5c4, 0x5c5, 0x5c6, 0x5c7, 0x600, 0x601, 0x604, 0x605,
        0x606, 0x60b, 0x60c, 0x60d, 0x60f, 0x610, 0x611, 0x619, 0x61a, 0x61b, 0x61c, 0x61d, 0x61e, 0x61f, 0x620, 0x63f, 0x641, 0x64b,
        0x64c, 0x672, 0x673, 0x674, 0x6d3, 0x6d4, 0x6d5, 0x6dc, 0x6dd, 0x6de, 0x6ff, 0x700, 0x701, 0x702, 0x703, 0x70f, 0x710, 0x7f8,
        0x7f9, 0x7fa, 0x836, 0x837, 0x838, 0x839, 0x83a, 0x83c, 0x83d, 0x83e, 0x890, 0x891, 0x8e1, 0x8e2, 0x8e3, 0x9bd, 0x9be, 0x9bf,
        0x9d7, 0xa70, 0xa71, 0xa72, 0xafa, 0xafb, 0xafc, 0xb3d, 0xb3e, 0xb3f, 0xb55, 0xb56, 0xb57, 0xbbe, 0xbbf, 0xbd7, 0xcbf, 0xcc0,
        0xcc1, 0xcc2, 0xcc3, 0xcc6, 0xcc7, 0xcc8, 0xcca, 0xccb, 0xccc, 0xcd5, 0xcd6, 0xe3f, 0xe40, 0xe41, 0xe43, 0xe44, 0xe45, 0xe46,
        0xe47, 0xec0, 0xec1, 0xec3, 0xec4, 0xec6, 0xf76, 0xf77, 0xf78, 0xf79, 0xf7a, 0x10fb, 0x10fc, 0x10fd, 0x115e, 0x115f, 0x1160,
        0x1161, 0x1368, 0x1369, 0x136a, 0x1370, 0x1371, 0x1372, 0x1400, 0x1401, 0x167f, 0x1681, 0x17a2, 0x17a3, 0x17a4, 0x17a5, 0x17b3,
        0x17b4, 0x17b5, 0x17b6, 0x1805, 0x1806, 0x1807, 0x1809, 0x180a, 0x180b, 0x180c, 0x180d, 0x180e, 0x180f, 0x1810, 0x1842, 0x1843,
        0x1844, 0x1884, 0x1885, 0x1886, 0x1887, 0x19b4, 0x19b5, 0x19b6, 0x19b7, 0x19b8, 0x19b9, 0x19ba, 0x19bb, 0x19d9, 0x19da, 0x1aa6,
        0x1aa7, 0x1aa8, 0x1c35, 0x1c36, 0x1c37, 0x1d2b, 0x1d2c, 0x1d2d, 0x1d61, 0x1d62, 0x1d63, 0x1d69, 0x1d6a, 0x1d6b, 0x1d77, 0x1d78,
        0x1d79, 0x1d95, 0x1d96, 0x1d97, 0x1da3, 0x1da4, 0x1da5, 0x1da7, 0x1da8, 0x1da9, 0x2001, 0x2009, 0x200f, 0x2011, 0x2012, 0x2015,
        0x2016, 0x2017, 0x201e, 0x201f, 0x2020, 0x2027, 0x202a, 0x202b, 0x202d, 0x202e, 0x2030, 0x2031, 0x2032, 0x2033, 0x2034, 0x2035,
        0x2038, 0x2039, 0x203a, 0x203b, 0x2041, 0x2052, 0x2053, 0x2054, 0x205e, 0x2060, 0x2061, 0x2062, 0x2063, 0x2064, 0x2066, 0x2067,
        0x2068, 0x2069, 0x206a, 0x206b, 0x206e, 0x206f, 0x2070, 0x207a, 0x207c, 0x208a, 0x208b, 0x208c, 0x2117, 0x2119, 0x212d, 0x212f,
        0x215f, 0x2161, 0x216e, 0x216f, 0x2211, 0x2212, 0x2213, 0x2328, 0x2329, 0x232a, 0x232b, 0x24b5, 0x24b7, 0x24ce, 0x24cf, 0x2e16,
        0x2e17, 0x2e18, 0x2e19, 0x2e1a, 0x2e1b, 0x2e39, 0x2e3a, 0x2e3b, 0x2e41, 0x2e42, 0x2e43, 0x2e80, 0x2e81, 0x2e98, 0x2e99, 0x2e9b,
        0x2e9c, 0x2ef2, 0x2ef3, 0x2f00, 0x2f01, 0x2fd4, 0x2fd5, 0x2ff0, 0x2ff1, 0x2ff2, 0x2ff3, 0x2ff4, 0x2ff5, 0x3001, 0x3005, 0x3006,
        0x3008, 0x300b, 0x300c, 0x300d, 0x300e, 0x300f, 0x3010, 0x301c, 0x301d, 0x301e, 0x301f, 0x3020, 0x3022, 0x3028, 0x3029, 0x302a,
        0x3037, 0x3038, 0x3039, 0x303a, 0x303b, 0x309a, 0x309d, 0x30fa, 0x30fb, 0x30fc, 0x3163, 0x3164, 0x3165, 0x31f0, 0x33ff, 0x3400,
        0x3401, 0x4dbe, 0x4dbf, 0x4dc0, 0x4dff, 0x9ffe, 0x9fff, 0xa000, 0xaab4, 0xaab5, 0xaab6, 0xaab7, 0xaab8, 0xaab9, 0xaaba, 0xaabb,
        0xaabc, 0xaabd, 0xf8ff, 0xf900, 0xf901, 0xfa0d, 0xfa0e, 0xfa0f, 0xfa10, 0xfa11, 0xfa12, 0xfa13, 0xfa14, 0xfa15, 0xfa1e, 0xfa1f,
        0xfa20, 0xfa21, 0xfa22, 0xfa23, 0xfa24, 0xfa25, 0xfa26, 0xfa27, 0xfa28, 0xfa6c, 0xfa6d, 0xfa70, 0xfa71, 0xfad8, 0xfad9, 0xfd3e,
        0xfd3f, 0xfd40, 0xfdcf, 0xfdd0, 0xfdd1, 0xfdee, 0xfdef, 0xfdf0, 0xfdff, 0xfe01, 0xfe0e, 0xfe0f, 0xfe10, 0xfe40, 0xfe41, 0xfe42,
        0xfe44, 0xfe45, 0xfe46, 0xfe47, 0xfe62, 0xfe63, 0xfe64, 0xff06, 0xff07, 0xff08, 0xff0c, 0xff0d, 0xff0e, 0xff0f, 0xff11, 0xff18,
        0xff19, 0xff1a, 0xff20, 0xff22, 0xff25, 0xff26, 0xff27, 0xff40, 0xff42, 0xff45, 0xff46, 0xff47, 0xff61, 0xff62, 0xff63, 0xff64,
        0xff65, 0xff66, 0xff9f, 0xffa0, 0xffa1, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10eac, 0x10ead, 0x110bc, 0x110bd, 0x110be,
        0x110cd, 0x16e97, 0x16e98, 0x16e99, 0x1bc9e, 0x1bc9f, 0x1bca0, 0x1da87, 0x1da88, 0x1da89, 0x1da8a, 0x1da8b, 0x1e04b, 0x1e04c,
        0x1e04d, 0x1e04e, 0x1e067, 0x1e068, 0x1e069, 0x1e06c, 0x1e06d, 0x1e943, 0x1e944, 0x1e945, 0x1e946, 0x1e947, 0x1e948, 0x1e949,
        0x1e94a, 0x1e94b, 0x1eeba, 0x1eebb, 0x1f12f, 0x1f130, 0x1f131, 0x1f148, 0x1f149, 0x1f14a, 0x1f14f, 0x1f150, 0x1f151, 0x1f168,
        0x1f169, 0x1f16a, 0x1f16f, 0x1f170, 0x1f171, 0x1f188, 0x1f189, 0x1f18a, 0x1f1e7, 0x1f1fe, 0x1f1ff, 0x1f200, 0x1fffe, 0x1ffff,
        0x2fffe, 0x2ffff, 0x30000, 0x3fffe, 0x3ffff, 0x4fffe, 0x4ffff, 0x5fffe, 0x5ffff, 0xdffff, 0xe0001, 0xe0020, 0xe007e, 0xe007f,
        0xe0101, 0xe01ee, 0xe01ef, 0xffffe, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]

POOL = sorted(set(POOL) | set(MORE))
POOL = [c for c in POOL if unicodedata.category(chr(c)) not in ("Cn", "Cs") or c in MORE]

PROPS = {
    "ASCII_Hex_Digit": lambda c: chr(c) in "0123456789abcdefABCDEF" if c < 128 else False,
    "White_Space": lambda c: c in (0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000) or 9 <= c <= 13 or 0x2000 <= c <= 0x200A,
    "Pattern_White_Space": lambda c: c in (0x20, 0x85, 0x200E, 0x200F, 0x2028, 0x2029) or 9 <= c <= 13,
    "Other_ID_Start": lambda c: c in (0x1885, 0x1886, 0x2118, 0x212E, 0x309B, 0x309C),
    "Join_Control": lambda c: c in (0x200C, 0x200D),
    "Regional_Indicator": lambda c: 0x1F1E6 <= c <= 0x1F1FF,
}
# The other properties gogll offers are those of Go's package unicode, as its
# documentation says: their ranges in that package.
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_go.json")) as _f:
    for _n, _r in json.load(_f).items():
        PROPS.setdefault(_n, lambda c, r=_r: any(a <= c <= b for a, b in r))
CATS = ["Cc", "Cf", "Co", "Nd", "L", "Lm", "Lo", "Ll", "Lt", "Lu", "M", "Mc", "Me", "Mn", "Nl", "No", "N",
        "C", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "P", "Sc", "Sk", "Sm", "So", "Z", "S", "Zl", "Zp", "Zs"]
ALIAS = {"Digit": "Nd", "Letter": "L", "Lower": "Ll", "Mark": "M", "Number": "N", "Other": "C", "Punct": "P",
         "Space": "Z", "Symbol": "S", "Title": "Lt", "Upper": "Lu"}


def classes(c):
    cat = unicodedata.category(chr(c))
    out = {cat, cat[0]} & set(CATS)
    out |= {a for a, t in ALIAS.items() if t in out}
    out |= {p for p, f in PROPS.items() if f(c)}
    if cat[0] == "L":
        out.add("letter")
    if cat == "Lu":
        out.add("upcase")
    if cat == "Ll":
        out.add("lowcase")
    if cat[0] == "N":
        out.add("number")
    if PROPS["White_Space"](c):
        out.add("space")
    return sorted(out)


_cache = {}


def chars(s):
    """The form Lexer.tla reads: the characters of s with their classes."""
    out = []
    for ch in s:
        c = ord(ch)
        if c not in _cache:
            _cache[c] = classes(c)
        out.append({"c": c, "cls": _cache[c]})
    return out
