"""Random nestings of library types for C04 (see harness/src/lib_types.rs)."""
import os
import random

# capabilities: o Ord, h Hash+Eq, c Copy, C Clone, d Deserialize, k usable as map key,
#               n never serialized as null, i distinct values have distinct JSON
INT = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()
LEAVES = {}
for t in INT:
    LEAVES[t] = "ohcCdkni"
    LEAVES["NonZero" + t.capitalize().replace("size", "size")] = "ohcCdkni"
for t in "U8 U16 U32 U64 Usize I8 I16 I32 I64 Isize".split():
    LEAVES["Atomic" + t] = "dni"
LEAVES["AtomicBool"] = "dni"
LEAVES.update({
    "bool": "ohcCdkni", "()": "ohcCdi", "f32": "cCdn", "f64": "cCdn", "char": "ohcCdkni", "String": "ohCdkni",
    "Value": "Cd", "Number": "Cdn", "JsonMap<String, Value>": "Cdn", "Box<str>": "ohCdkni", "Rc<str>": "ohCdkni", "Arc<str>": "ohCdkni",
    "Cow<'static, str>": "ohCdkni", "&'static str": "ohcCkni", "PathBuf": "ohCdkni", "Box<Path>": "ohCdkni", "&'static Path": "ohcCkni",
    "OsString": "ohCdni", "Box<OsStr>": "ohCdni", "CString": "ohCdni", "Box<CStr>": "ohCdni", "&'static CStr": "ohcCni",
    "Ipv4Addr": "ohcCdkni", "Ipv6Addr": "ohcCdkni", "IpAddr": "ohcCdkni", "SocketAddrV4": "ohcCdkni", "SocketAddrV6": "ohcCdkni",
    "SocketAddr": "ohcCdkni", "Duration": "ohcCdni", "SystemTime": "ohcCdni", "Bytes": "ohCdni", "BytesMut": "ohCdni",
    "SmolStr2": "ohCdkni", "SmolStr3": "ohCdkni", "Decimal": "ohcCdkn", "BigDecimal": "ohCdkn", "Version": "ohCdkni", "Url": "ohCdkni",
    "Uuid": "ohcCdkni", "chrono::Weekday": "hcCdkni", "chrono::TimeDelta": "ohcCdni", "chrono::NaiveDate": "ohcCdkni",
    "chrono::NaiveTime": "ohcCdkni", "chrono::NaiveDateTime": "ohcCdkni", "chrono::DateTime<chrono::Utc>": "ohcCdkni",
    "chrono::DateTime<chrono::FixedOffset>": "ohcCdkn", "jiff::civil::Date": "ohcCdkni", "jiff::civil::Time": "ohcCdkni",
    "jiff::civil::DateTime": "ohcCdkni", "jiff::Timestamp": "ohcCdkni", "jiff::Zoned": "hCdkn", "jiff::SignedDuration": "ohcCdkni",
    "jiff::Span": "cCdkn", "Box<RawValue>": "Cd", "ArrayString<4>": "ohcCdkni", "ArrayString<0>": "ohcCdkni",
    "PhantomData<ext::NoSchema>": "",
    "KeyOne": "ohcCdkni", "KeyThree": "ohcCdkni", "KeyMany": "ohcCdkni", "KeyDoc": "ohcCdkni", "KeyNum": "ohCdkni", "KeyThrough": "ohCdkni",
    "KeyMixed": "ohCkni", "KeySigned": "ohCkni", "KeyFree": "ohCkn",
})
OWN = [t for t in LEAVES if t.startswith("Key")]
KEYS = [t for t, c in LEAVES.items() if "k" in c]


def keep(c, which):
    return "".join(x for x in c if x in which)


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def leaf(self, need):
        ok = [t for t, c in LEAVES.items() if all(x in c for x in need)]
        t = self.r.choice(ok)
        return t, LEAVES[t]

    def key(self, need):
        r = self.r
        ok = [t for t in KEYS if all(x in LEAVES[t] for x in need)]
        x = r.random()
        if x < 0.3:
            ok = [t for t in ok if t in INT] or ok
        elif x < 0.5:
            ok = [t for t in ok if t in OWN] or ok
        t = r.choice(ok)
        c = LEAVES[t]
        if r.random() < 0.2:
            w, keeps = r.choice([("Box<%s>", "ohCdkni"), ("Rc<%s>", "ohCdkni"), ("Wrapping<%s>", "ohcCdkni"), ("Reverse<%s>", "ohcCdkni"),
                                 ("Option<%s>", "ohcCdk")])
            if w.startswith("Wrapping") and t not in INT:
                return t, c
            t, c = w % t, keep(c, keeps)
        return t, c

    def ty(self, d, need=""):
        """A random type with at least the capabilities `need`; returns (text, capabilities)."""
        r = self.r
        for _ in range(60):
            t, c = self.one(d)
            if all(x in c for x in need):
                return t, c
        return self.leaf(need)

    CONS = ["Option", "Vec", "VecDeque", "LinkedList", "BinaryHeap", "BTreeSet", "HashSet", "IndexSet", "BTreeMap", "HashMap", "IndexMap",
            "Box", "Rc", "Arc", "Cell", "RefCell", "Mutex", "RwLock", "Wrapping", "Reverse", "Cow", "ref", "refmut", "boxslice", "arcslice",
            "cowslice", "SmallVec", "ArrayVec", "array", "tuple", "RcWeak", "ArcWeak", "Result", "Either", "Bound", "Range", "RangeInclusive"]

    def one(self, d):
        if d == 0 or self.r.random() < 0.2:
            return self.leaf("")
        return self.cons(self.r.choice(self.CONS), d - 1)

    def cons(self, k, d):
        r = self.r
        t = lambda need="": self.ty(d, need)
        if k == "Option":
            a, c = t()
            return "Option<%s>" % a, keep(c, "ohcCd" + ("i" if "n" in c else ""))
        if k in ("Vec", "VecDeque", "LinkedList"):
            a, c = t()
            return "%s<%s>" % (k, a), keep(c, "ohCdi") + "n"
        if k in ("boxslice", "arcslice"):
            a, c = t()
            return ("Box<[%s]>" if k == "boxslice" else "Arc<[%s]>") % a, keep(c, "ohCdi") + "n"
        if k == "cowslice":
            a, c = t("C")
            return "Cow<'static, [%s]>" % a, keep(c, "ohCdi") + "n"
        if k == "BinaryHeap":
            a, c = t("o")
            return "BinaryHeap<%s>" % a, keep(c, "Cd") + "n"
        if k == "BTreeSet":
            a, c = t("oi")
            return "BTreeSet<%s>" % a, keep(c, "ohCdi") + "n"
        if k in ("HashSet", "IndexSet"):
            a, c = t("hi")
            return "%s<%s>" % (k, a), keep(c, "Cd") + "n"
        if k == "BTreeMap":
            a, c = self.key("o")
            b, e = t()
            return "BTreeMap<%s, %s>" % (a, b), "".join(x for x in "ohCdi" if x in c and x in e) + "n"
        if k in ("HashMap", "IndexMap"):
            a, c = self.key("h")
            b, e = t()
            return "%s<%s, %s>" % (k, a, b), "".join(x for x in "Cd" if x in c and x in e) + "n"
        if k in ("Box", "Rc", "Arc"):
            a, c = t()
            return "%s<%s>" % (k, a), keep(c, "ohdni" + ("C" if k == "Box" else "")) + ("C" if k != "Box" else "")
        if k == "Cell":
            a, c = t("c")
            return "Cell<%s>" % a, keep(c, "oCdni").replace("o", "")
        if k in ("RefCell",):
            a, c = t()
            return "RefCell<%s>" % a, keep(c, "Cdni")
        if k in ("Mutex", "RwLock"):
            a, c = t()
            return "%s<%s>" % (k, a), keep(c, "dni")
        if k in ("Wrapping", "Reverse"):
            a, c = t()
            return "%s<%s>" % (k, a), keep(c, "ohcCdni")
        if k == "Cow":
            a, c = t("C")
            return "Cow<'static, %s>" % a, keep(c, "ohCdni")
        if k == "ref":
            a, c = t()
            return "&'static %s" % a, keep(c, "ohni") + "cC"
        if k == "refmut":
            a, c = t()
            return "&'static mut %s" % a, keep(c, "ohni")
        if k == "SmallVec":
            a, c = t()
            return "SmallVec<[%s; %d]>" % (a, r.choice([0, 1, 2, 4, 8])), keep(c, "ohCdi") + "n"
        if k == "ArrayVec":
            a, c = t()
            return "ArrayVec<%s, %d>" % (a, r.choice([0, 1, 2, 5])), keep(c, "ohCdi") + "n"
        if k == "array":
            a, c = t()
            n = r.choice([0, 1, 2, 3, 3, r.randint(4, 32)])
            return "[%s; %d]" % (a, n), keep(c, "ohCdi") + "n"
        if k == "tuple":
            n = r.choice([1, 2, 2, 3, 3, 4, r.randint(5, 12), r.randint(13, 16)])
            ts = [self.ty(d if n < 5 else 0) for _ in range(n)]
            caps = "dC" if n > 12 else "ohcCdi"
            return "(%s,)" % ", ".join(x for x, _ in ts), "".join(x for x in caps if all(x in c for _, c in ts)) + "n"
        if k in ("RcWeak", "ArcWeak"):
            a, c = t()
            # deserialized weak pointers point nowhere
            return "%s<%s>" % (k, a), "C" + keep(c, "d")
        if k in ("Result", "Either"):
            a, c = t()
            b, e = t()
            return "%s<%s, %s>" % (k, a, b), "".join(x for x in "ohcCdi" if x in c and x in e) + "n"
        if k == "Bound":
            a, c = t()
            return "Bound<%s>" % a, keep(c, "hcCdi") + "n"
        if k in ("Range", "RangeInclusive"):
            a, c = t()
            return "%s<%s>" % (k, a), keep(c, "hCdi") + "n"
        raise KeyError(k)


def write(dirpath, nbins, seed, per, prefix="l"):
    names = []
    base = G(seed)
    fixed = [(t, c) for t, c in LEAVES.items()]
    for k in G.CONS:
        fixed.append(base.cons(k, 0))
    for n in range(0, 33):
        fixed.append(("[u8; %d]" % n, "d"))
    for n in range(1, 17):
        fixed.append(("(%s,)" % ", ".join(["u8"] * (n - 1) + ["bool"]), "d"))
    for t in KEYS:
        if "o" in LEAVES[t]:
            fixed.append(("BTreeMap<%s, bool>" % t, "d" if "d" in LEAVES[t] else ""))
    for i in range(nbins):
        g = G(seed * 1009 + i)
        types = fixed[i::nbins]
        while len(types) < len(fixed[i::nbins]) + per:
            t = g.ty(g.r.choice([1, 2, 2, 3, 4]))
            if len(t[0]) < 260:
                types.append(t)
        n = "%s%d" % (prefix, i)
        with open(os.path.join(dirpath, n + ".rs"), "w") as f:
            f.write("#![allow(warnings)]\nuse vh::lib_types::prelude::*;\nfn go(x: &mut vh::lib_types::Run) {\n")
            for t, c in types:
                f.write("    x.%s::<%s>(%s);\n" % ("both" if "d" in c else "ser", t, '"%s"' % t.replace('"', '\\"')))
            if i == 0:
                f.write("    x.decimal_exponents();\n    x.borrowed();\n")
            f.write("}\nfn main() { vh::lib_types::main(go) }\n")
        names.append(n)
    return names
