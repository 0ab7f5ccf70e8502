"""Generates all definitions of two bounded grammars: layouts (C07) and names, generics and shapes (C08).

Every definition is a pair (name, source of a module). A module of C07 has a function `pub fn check()`.
"""
import itertools

# ---- C07

# type, words
TYPES = [("()", 0), ("u8", 1), ("u64", 2), ("(u8, u64)", 3)]
# the unit type is no slab item: phantom data is the item without words
TYPES = [("std::marker::PhantomData<u8>", 0), ("u8", 1), ("u64", 2), ("(u8, u64)", 3)]
MORE = TYPES + [("Option<u16>", 2), ("[u32; 3]", 3), ("u128", 4), ("bool", 1), ("super::super::Inner", 3), ("super::super::Choice", 4), ("Id<u8>", 1), ("Array<u64>", 2)]

PRE = """
use rt::crabslab::{self, Array, Id, SlabItem};
use rt::{mk, words};
"""

HEAD = """
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all, unused_variables, private_interfaces)]
"""

INNER = HEAD + PRE + """
use rt::Mk;
#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
#[offsets]
pub struct Inner { pub x: u8, pub y: u64 }
impl Mk for Inner { fn mk(k: u32) -> Self { Inner { x: mk(k), y: mk(k + 31) } } }
#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]
pub enum Choice { A(u8), #[default] B, C { p: u64, q: u8 } }
impl Mk for Choice { fn mk(k: u32) -> Self { match k % 3 { 0 => Choice::A(mk(k)), 1 => Choice::B, _ => Choice::C { p: mk(k), q: mk(k + 17) } } } }
"""

NAMES = "abcdefgh"

FIELDS = """a b index slab hash original_index slab_size size self_ n i t x r#type r#fn r#move r#match r#self_ r#async
__size __field_size __hash __0 __1 __2 _0 _a __field_a __field_b __field_index __field_type __field___0
crabslab core std default id len offset value read_slab write_slab SLAB_SIZE OFFSET u32 usize item array t0 élan
this slab_ __index __slab array_len field fields var name ty_ member original""".split()


def struct_check(tyname, ctor, fields, ngen=1):
    """The check of a struct with these (accessor, type); ctor makes it from a list of expressions."""
    n = len(fields)
    out = ["pub fn check() {"]
    if n:
        out.append(f"    let f = |x: &{tyname}, bg: u32| Some(vec![" + ", ".join(f"words(&x.{a}, bg)" for a, _ in fields) + "]);")
    else:
        out.append(f"    let f = |_: &{tyname}, _: u32| Some(vec![]);")
    size = " + ".join(f"<{t} as SlabItem>::SLAB_SIZE" for _, t in fields) or "0"
    for seed in (1, 2, 3):
        vals = ", ".join([])
        out.append(f"    let v{seed}: {tyname} = " + ctor([f"mk({seed * 40 + i})" for i in range(n)]) + ";")
        out.append(f"    rt::layout::<{tyname}>(NAME, {size}, &[], &f, &v{seed});")
    for i, (a, t) in enumerate(fields):
        const = a.replace("r#", "").upper()
        path = tyname.replace("<", "::<", 1) if "<" in tyname else tyname
        out.append(f"    rt::field::<{tyname}, {t}>(NAME, || {path}::OFFSET_OF_{const}, {path}::SLAB_SIZE_OF_{const}, {i}, &f, &v1, &v2.{a});")
    out.append("}")
    return "\n".join(out) + "\n"


def layouts(thorough):
    """Definitions whose layout is checked."""
    out = []

    def add(name, text):
        out.append((name, PRE + f'const NAME: &str = "{name}";\n' + text))

    b1 = TYPES[1]

    def structure(kind, types, tag=""):
        short = "_".join(str(MORE.index(t) if t in MORE else 99) for t in types)
        name = f"{kind}{tag}_{short}" if types else f"{kind}{tag}"
        if kind == "named":
            d = "pub struct S { " + ", ".join(f"pub {NAMES[i]}: {t[0]}" for i, t in enumerate(types)) + " }"
            ctor = lambda e: "S { " + ", ".join(f"{NAMES[i]}: {x}" for i, x in enumerate(e)) + " }"
            fields = [(NAMES[i], t[0]) for i, t in enumerate(types)]
        else:
            d = "pub struct S(" + ", ".join(f"pub {t[0]}" for t in types) + ");"
            ctor = lambda e: "S(" + ", ".join(e) + ")"
            fields = [(str(i), t[0]) for i, t in enumerate(types)]
        add(name, "#[derive(SlabItem)]\n#[offsets]\n" + d + "\n" + struct_check("S", ctor, fields))

    for kind in ("named", "tuple"):
        for n in range(0, 4):
            for types in itertools.product(TYPES, repeat=n):
                structure(kind, types)
        for types in itertools.product(MORE, repeat=2):
            if all(t in TYPES for t in types):
                continue
            structure(kind, types)
        if thorough:
            for types in itertools.product(TYPES, repeat=4):
                structure(kind, types)
            for types in itertools.product(MORE, repeat=3):
                if all(t in TYPES for t in types):
                    continue
                structure(kind, types)
        # the same type again, and again
        for t in MORE:
            for types in ([t, t, b1], [b1, t, t, b1], [t, t, t, t, b1], [t, b1, t, b1, t, b1], [t, b1, b1, t, t])[: 4 if t == b1 else 5]:
                structure(kind, types, "_again")
    # many fields
    structure("named", [MORE[(i * 5 + 1) % len(MORE)] for i in range(8)], "8")
    structure("tuple", [MORE[(i * 5 + 2) % len(MORE)] for i in range(8)], "8")
    structure("tuple", [MORE[(i * 7 + 3) % len(MORE)] for i in range(12)], "12")
    add("unit", "#[derive(SlabItem)]\n#[offsets]\npub struct S;\n" + struct_check("S", lambda e: "S", []))
    # generic ones
    for n, g in (("one", ["T"]), ("two", ["T", "U"]), ("three", ["T", "U", "T"])):
        for args in itertools.product([t for t in MORE if t[1] in (0, 1, 3)][:5], repeat=2):
            params = sorted(set(g))
            if len(params) == 1 and args[0] != args[1]:
                continue
            m = dict(zip(params, args))
            inst = "S<" + ", ".join(m[p][0] for p in params) + ">"
            tail = MORE[6]
            d = f"pub struct S<{', '.join(params)}> {{ " + ", ".join(f"pub {NAMES[i]}: {p}" for i, p in enumerate(g)) + f", pub z: {tail[0]} }}"
            fields = [(NAMES[i], m[p][0]) for i, p in enumerate(g)] + [("z", tail[0])]
            ctor = lambda e, g=g: "S { " + ", ".join(f"{NAMES[i]}: {x}" for i, x in enumerate(e[:-1])) + f", z: {e[-1]} }}"
            short = "_".join(str(MORE.index(a)) for a in args)
            add(f"generic_{n}_{short}", "#[derive(SlabItem)]\n#[offsets]\n" + d + "\n" + struct_check(inst, ctor, fields))
    for n in range(0, 4):
        d = "pub struct S<const N: usize> { pub a: u8, pub b: [u64; N], pub c: u16 }"
        ctor = lambda e: "S { a: " + e[0] + ", b: " + e[1] + ", c: " + e[2] + " }"
        # arrays have a default only for literal lengths, so a generic length needs a bound
        d = d.replace(" {", " where [u64; N]: Default {", 1)
        add(f"const_{n}", "#[derive(SlabItem)]\n#[offsets]\n" + d + "\n" + struct_check(f"S<{n}>", ctor, [("a", "u8"), ("b", f"[u64; {n}]"), ("c", "u16")]))
    # offsets into nested structs
    add("nested", """
#[derive(SlabItem)]
#[offsets]
pub struct P { pub a: u64, pub b: super::super::Inner, pub c: Q }
#[derive(SlabItem)]
#[offsets]
pub struct Q(pub u8, pub super::super::Inner);
pub fn check() {
    use crabslab::Slab;
    for i in 0..4u32 {
        let p = P { a: mk(1), b: mk(2), c: Q(mk(3), mk(4)) };
        let mut w = vec![0u32; 20];
        w[..].write(Id::new(i), &p);
        let id = Id::<P>::new(i);
        let bx: u8 = w[..].read_unchecked(id + P::OFFSET_OF_B + super::super::Inner::OFFSET_OF_X);
        let by: u64 = w[..].read_unchecked(id + P::OFFSET_OF_B + super::super::Inner::OFFSET_OF_Y);
        let c0: u8 = w[..].read_unchecked(id + P::OFFSET_OF_C + Q::OFFSET_OF_0);
        let cy: u64 = w[..].read_unchecked(id + P::OFFSET_OF_C + Q::OFFSET_OF_1 + super::super::Inner::OFFSET_OF_Y);
        if (bx, by, c0, cy) != (p.b.x, p.b.y, p.c.0, p.c.1.y) {
            println!("FAIL {NAME}: chained offsets: {:?}", (bx, by, c0, cy));
        }
        w[..].write(id + P::OFFSET_OF_C + Q::OFFSET_OF_1 + super::super::Inner::OFFSET_OF_Y, &5u64);
        let q: P = w[..].read_unchecked(id);
        if (q.a, q.b.x, q.b.y, q.c.0, q.c.1.x, q.c.1.y) != (p.a, p.b.x, p.b.y, p.c.0, p.c.1.x, 5) {
            println!("FAIL {NAME}: a write through chained offsets");
        }
    }
}
""")
    # enums: all sequences of variants of these shapes
    u, b, q, t3 = TYPES
    shapes = [("u", []), ("t", [b]), ("t", [q]), ("t", [b, q]), ("n", [q, b]), ("n", [b]), ("t", [t3, u, b]), ("t", [u]), ("n", [q, t3]), ("n", []), ("t", []), ("n", [b, b, b, q])]
    if thorough:
        shapes += [("n", [MORE[8], MORE[9]]), ("t", [MORE[4], MORE[5], MORE[6]]), ("t", [MORE[9], MORE[9], b])]

    def enum(vs, default):
        name = "enum_" + "_".join(k + "".join(str(MORE.index(t)) for t in ts) for k, ts in vs) + f"_d{default}"
        d = []
        for i, (k, ts) in enumerate(vs):
            if k == "u":
                d.append(f"    V{i},")
            elif k == "t":
                d.append(f"    V{i}(" + ", ".join(t[0] for t in ts) + "),")
            else:
                d.append(f"    V{i} {{ " + ", ".join(f"{NAMES[j]}: {t[0]}" for j, t in enumerate(ts)) + " },")

        def value(i, seed):
            k, ts = vs[i]
            e = [f"mk({seed * 50 + 7 * i + j})" for j in range(len(ts))]
            if k == "u":
                return f"E::V{i}"
            if k == "t":
                return f"E::V{i}(" + ", ".join(e) + ")"
            return f"E::V{i} {{ " + ", ".join(f"{NAMES[j]}: {x}" for j, x in enumerate(e)) + " }"

        text = "#[derive(SlabItem)]\npub enum E {\n" + "\n".join(d) + "\n}\n"
        text += f"impl Default for E {{ fn default() -> Self {{ {value(default, 9)} }} }}\n"
        text += "pub fn check() {\n"
        size = 1 + max([sum(t[1] for t in ts) for _, ts in vs])
        for i, (k, ts) in enumerate(vs):
            if k == "u":
                pat, ws = f"E::V{i}", []
            elif k == "t":
                ws = [f"x{j}" for j in range(len(ts))]
                pat = f"E::V{i}(" + ", ".join(ws) + ")"
            else:
                ws = [f"x{j}" for j in range(len(ts))]
                pat = f"E::V{i} {{ " + ", ".join(f"{NAMES[j]}: {x}" for j, x in enumerate(ws)) + " }"
            text += f"    let f = |x: &E, bg: u32| if let {pat} = x {{ Some(vec![" + ", ".join(f"words({x}, bg)" for x in ws) + "]) } else { None };\n"
            for seed in (1, 2) if ts else (1,):
                text += f"    rt::layout::<E>(NAME, {size}, &[{i}], &f, &{value(i, seed)});\n"
        text += f"    rt::unknown::<E>(NAME, {len(vs)});\n}}\n"
        add(name, text)

    for n in (1, 2):
        for vs in itertools.product(shapes, repeat=n):
            for d in range(n):
                enum(vs, d)
    for vs in itertools.product(shapes[:10 if thorough else 8], repeat=3):
        enum(vs, sum(len(x[1]) for x in vs) % 3)
    if thorough:
        for vs in itertools.product(shapes[:5], repeat=4):
            enum(vs, sum(len(x[1]) for x in vs) % 4)
    # many variants, with explicit discriminants
    text = "#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]\n#[repr(u32)]\npub enum E { #[default] A = 7, B = 3, C, D = 900 }\n"
    text += "pub fn check() {\n"
    for i, v in enumerate("ABCD"):
        text += f"    rt::layout::<E>(NAME, 1, &[{i}], &|x: &E, _| (*x == E::{v}).then(Vec::new), &E::{v});\n"
    text += "    rt::unknown::<E>(NAME, 4);\n}\n"
    add("enum_discriminants", text)
    text = "#[derive(Clone, Copy, Debug, Default, PartialEq, SlabItem)]\npub enum E { #[default] " + ", ".join(f"V{i}(u8)" if i % 3 == 1 else f"V{i}" for i in range(300)) + " }\n"
    text += "pub fn check() {\n"
    for i in range(300):
        v = f"E::V{i}(mk({i}))" if i % 3 == 1 else f"E::V{i}"
        f = f"|x: &E, bg| if let E::V{i}(a) = x {{ Some(vec![words(a, bg)]) }} else {{ None }}" if i % 3 == 1 else f"|x: &E, _| (*x == E::V{i}).then(Vec::new)"
        text += f"    rt::layout::<E>(NAME, 2, &[{i}], &{f}, &{v});\n"
    text += "    rt::unknown::<E>(NAME, 300);\n}\n"
    add("enum_300", text)
    # fields named like what generated code may use, of the type that discriminants are stored as
    for k, a in enumerate(FIELDS):
        b = FIELDS[(k + 7) % len(FIELDS)]
        if a.replace("r#", "").upper() == b.replace("r#", "").upper():
            b = "zz"
        c = FIELDS[(k + 29) % len(FIELDS)]
        if c.replace("r#", "").upper() in (a.replace("r#", "").upper(), b.replace("r#", "").upper()):
            c = "yy"
        ns = [a, b, c]
        ctor = lambda e: "S { " + ", ".join(f"{ns[i]}: {x}" for i, x in enumerate(e)) + " }"
        d = "#[derive(SlabItem)]\n#[offsets]\npub struct S { " + ", ".join(f"pub {n}: u32" for n in ns) + " }\n"
        add(f"names_struct_{k}", d + struct_check("S", ctor, [(n, "u32") for n in ns]))
        text = f"#[derive(Default, SlabItem)]\npub enum E {{ #[default] None, One {{ {a}: u32 }}, Two {{ {a}: u32, {b}: u32 }}, Three {{ {c}: u64, {a}: u32, {b}: u32 }} }}\npub fn check() {{\n"
        text += "    rt::layout::<E>(NAME, 5, &[0], &|x: &E, _| matches!(x, E::None).then(Vec::new), &E::None);\n"
        for v, vn, fs in ((1, "One", [a]), (2, "Two", [a, b]), (3, "Three", [c, a, b])):
            bind = ", ".join(f"{f}: x{i}" for i, f in enumerate(fs))
            ws = ", ".join(f"words(x{i}, bg)" for i in range(len(fs)))
            for seed in (1, 2):
                vals = ", ".join(f"{f}: mk({seed * 31 + 5 * v + i})" for i, f in enumerate(fs))
                text += f"    rt::layout::<E>(NAME, 5, &[{v}], &|x: &E, bg| if let E::{vn} {{ {bind} }} = x {{ Some(vec![{ws}]) }} else {{ None }}, &E::{vn} {{ {vals} }});\n"
        text += "    rt::unknown::<E>(NAME, 4);\n}\n"
        add(f"names_enum_{k}", text)
    # a generic enum
    for a in TYPES[1:]:
        for c in TYPES[1:]:
            text = "#[derive(SlabItem)]\npub enum G<T, U> { None, A(T), B { u: U, t: T }, C(u8, U) }\n"
            text += "impl<T, U> Default for G<T, U> { fn default() -> Self { G::None } }\n"
            text += f"type E = G<{a[0]}, {c[0]}>;\npub fn check() {{\n"
            size = 1 + max(a[1] + c[1], 1 + c[1])
            text += f"    rt::layout::<E>(NAME, {size}, &[0], &|x: &E, _| matches!(x, G::None).then(Vec::new), &G::None);\n"
            text += f"    rt::layout::<E>(NAME, {size}, &[1], &|x: &E, bg| if let G::A(t) = x {{ Some(vec![words(t, bg)]) }} else {{ None }}, &G::A(mk(5)));\n"
            text += f"    rt::layout::<E>(NAME, {size}, &[2], &|x: &E, bg| if let G::B {{ u, t }} = x {{ Some(vec![words(u, bg), words(t, bg)]) }} else {{ None }}, &G::B {{ u: mk(6), t: mk(7) }});\n"
            text += f"    rt::layout::<E>(NAME, {size}, &[3], &|x: &E, bg| if let G::C(n, u) = x {{ Some(vec![words(n, bg), words(u, bg)]) }} else {{ None }}, &G::C(mk(8), mk(9)));\n"
            text += "    rt::unknown::<E>(NAME, 4);\n}\n"
            add(f"enum_generic_{a[1]}_{c[1]}", text)
    return out


# ---- C08

TYPE_NAMES = """Index Slab Id Array Offset Item Hash Size Clone Copy Default Option Some None Ok Err Result String Vec Box Iterator
PhantomData Any Self_ Sized Params Field Variant r#Type r#async CpuSlab GrowableSlab T U Élan SlabItem Into From ToOwned Drop Fn Send Sync __Self Tuple Struct Enum Output Add""".split()
VARIANTS = TYPE_NAMES + "index slab hash __hash r#fn SLAB_SIZE X Y".split()
PARAMS = """T U S Index Slab Hash Size Item Id Array Offset Default Option Some None Ok Result Vec String Clone Copy Sized PhantomData Any SlabItem r#async F Field Self_ __T Élan Into From Iterator Output""".split()

IMPORTS = {"plain": "use crabslab::SlabItem;\n", "path": "", "glob": "use crabslab::*;\n"}


def definitions(thorough):
    """Definitions that have to compile. The module is empty except for what is in there."""
    out = []
    seen = set()

    def add(name, text, imp="path", offsets=None):
        assert name not in seen, name
        seen.add(name)
        out.append((name, "use rt::crabslab;\n" + IMPORTS[imp] + text))

    def derive(imp):
        return {"plain": "SlabItem", "path": "crabslab::SlabItem", "glob": "SlabItem"}[imp]

    def attrs(imp, offsets):
        return f"#[derive({derive(imp)})]\n" + ("#[offsets]\n" if offsets else "")

    # pairs of field names: in structs (with offsets, unless they differ only in case), in tuples' neighbours, in variants
    def same_const(a, b):
        return a.replace("r#", "").upper() == b.replace("r#", "").upper()

    for k, a in enumerate(FIELDS):
        others = [b for b in FIELDS if b != a and b.replace("r#", "") != a.replace("r#", "")]
        for j in range(0, len(others), 6):
            # six definitions in one
            text = ""
            for m, b in enumerate(others[j : j + 6]):
                if not thorough and FIELDS.index(b) < k and (k + m) % 2:
                    continue
                text += attrs("path", not same_const(a, b)) + f"pub struct S{m} {{ pub {a}: u8, pub {b}: u64 }}\n"
            if text:
                add(f"fields_{k}_{j}", text)
        variants = ", ".join(f"V{m} {{ {a}: u8, {b}: u64 }}" for m, b in enumerate(others))
        add(f"variants_{k}", attrs("path", False) + f"#[derive(Default)]\npub enum E {{ #[default] None, One {{ {a}: u64 }}, {variants} }}\n")
        add(f"variants_plain_{k}", attrs("plain", False) + f"#[derive(Default)]\npub enum E {{ #[default] None, One {{ {a}: u64 }}, Two {{ {a}: bool, b_: f32 }}, Three({derive('path').split('::')[0]}::Id<u8>) }}\n", "plain")
    # types
    for n in TYPE_NAMES:
        w = n.replace("r#", "raw_").replace("É", "E_acute")
        for imp in ("path", "plain") if n not in ("SlabItem",) else ("path",):
            for off in (False, True):
                o = f"{w}_{imp}_{int(off)}"
                add(f"type_named_{o}", attrs(imp, off) + f"pub struct {n} {{ pub a: u32, pub b: [u8; 2] }}\n", imp)
                add(f"type_tuple_{o}", attrs(imp, off) + f"pub struct {n}(pub u32, pub u64);\n", imp)
                add(f"type_unit_{o}", attrs(imp, off) + f"pub struct {n};\n", imp)
            add(f"type_enum_{w}_{imp}", attrs(imp, False) + f"pub enum {n} {{ A, B(u32), C {{ x: bool }} }}\nimpl ::core::default::Default for {n} {{ fn default() -> Self {{ {n}::A }} }}\n", imp)
        # next to such a type
        add(f"beside_{w}", f"pub struct {n};\n" + attrs("path", True) + "pub struct Beside { pub a: u32, pub b: ::core::option::Option<u8> }\n" + attrs("path", False) + "pub enum BesideE { A, B(u32), C { x: bool } }\nimpl ::core::default::Default for BesideE { fn default() -> Self { BesideE::A } }\n" + attrs("path", True) + "pub struct BesideT(pub u32, pub u64);\n")
    # variants
    for n in VARIANTS:
        w = n.replace("r#", "raw_").replace("É", "E_acute")
        add(f"variant_{w}_unit", attrs("path", False) + f"pub enum E {{ First, {n} }}\nimpl ::core::default::Default for E {{ fn default() -> Self {{ E::{n} }} }}\n")
        add(f"variant_{w}_tuple", attrs("path", False) + f"pub enum E {{ {n}(u8, u64), Last }}\nimpl ::core::default::Default for E {{ fn default() -> Self {{ E::Last }} }}\n")
        add(f"variant_{w}_named", attrs("path", False) + f"pub enum E {{ Last, {n} {{ a: u8, b: u64 }} }}\nimpl ::core::default::Default for E {{ fn default() -> Self {{ E::Last }} }}\n")
    # type parameters
    bounds = {
        "none": ("", ""),
        "inline": (": crabslab::SlabItem", ""),
        "several": (": ::core::clone::Clone + ::core::default::Default + 'static", ""),
        "where": ("", " where {P}: ::core::marker::Copy"),
        "wheresi": ("", " where {P}: crabslab::SlabItem + ::core::fmt::Debug,"),
    }
    def use(*types):
        # generics only get checked as far as they are used
        return "pub struct NotItem;\n" + "".join(f"pub const USE{i}: usize = <{t} as crabslab::SlabItem>::SLAB_SIZE;\npub fn use{i}(x: &{t}, s: &mut [u32]) -> {t} {{ crabslab::SlabItem::write_slab(x, 0, s); crabslab::SlabItem::read_slab(0, s) }}\n" for i, t in enumerate(types))

    for p in PARAMS:
        w = p.replace("r#", "raw_").replace("É", "E_acute")
        for bn, (inl, wh) in bounds.items():
            if bn not in ("none", "inline") and p not in ("T", "Index", "Default") and not thorough:
                continue
            wh = wh.replace("{P}", p)
            for off in (False, True):
                o = f"{w}_{bn}_{int(off)}"
                add(f"param_named_{o}", attrs("path", off) + f"pub struct G<{p}{inl}>{wh} {{ pub a: {p}, pub b: u64 }}\n" + use("G<u8>", "G<G<u64>>" if bn in ("none", "inline") else "G<u64>"))
                add(f"param_tuple_{o}", attrs("path", off) + f"pub struct G<{p}{inl}>(pub u64, pub {p}){wh};\n" + use("G<u8>", "G<(u8, u64)>"))
                add(f"param_phantom_{o}", attrs("path", off) + f"pub struct G<{p}{inl}>{wh} {{ pub a: ::core::marker::PhantomData<{p}>, pub b: crabslab::Id<{p}> }}\n" + use("G<u8>", *(["G<NotItem>"] if bn == "none" else [])))
            add(f"param_enumphantom_{w}_{bn}", attrs("path", False) + f"pub enum G<{p}{inl}>{wh} {{ A, B(::core::marker::PhantomData<{p}>), C {{ x: crabslab::Id<{p}>, y: u64 }} }}\nimpl<{p}{inl}> ::core::default::Default for G<{p}>{wh} {{ fn default() -> Self {{ G::A }} }}\n" + use("G<u8>", *(["G<NotItem>"] if bn == "none" else [])))
            add(f"param_enum_{w}_{bn}", attrs("path", False) + f"pub enum G<{p}{inl}>{wh} {{ A, B({p}), C {{ x: {p}, y: u64 }} }}\nimpl<{p}{inl}> ::core::default::Default for G<{p}>{wh} {{ fn default() -> Self {{ G::A }} }}\n" + use("G<u8>", "G<(u8, u64)>"))
    # shapes
    types = ["u8", "u64", "Option<u32>", "[u16; 3]", "(u8, f32)", "crabslab::Id<u8>", "crabslab::Array<u64>", "::std::marker::PhantomData<f32>"]
    n = 0
    for imp in IMPORTS:
        for off in (False, True):
            for vis in ("", "pub ", "pub(crate) "):
                fields = [("", ["unit"]), ("", ["t"]), ("", ["n"])]
                body = []
                body.append(("unit", f"{vis}struct S;"))
                body.append(("tuple0", f"{vis}struct S();"))
                body.append(("named0", f"{vis}struct S {{}}"))
                for c in (1, 2, 3):
                    ts = [types[(n + i) % len(types)] for i in range(c)]
                    n += 1
                    body.append((f"tuple{c}", f"{vis}struct S(" + ", ".join(f"{vis}{t}" for t in ts) + ");"))
                    body.append((f"named{c}", f"{vis}struct S {{ " + ", ".join(f"{vis}{NAMES[i]}: {t}" for i, t in enumerate(ts)) + " }"))
                for k, b in body:
                    add(f"shape_{imp}_{int(off)}_{vis.strip().replace('(', '_').replace(')', '')}_{k}", attrs(imp, off) + b + "\n", imp)
    vshapes = ["V{i}", "V{i}()", "V{i} {{}}", "V{i}(u8)", "V{i}(u64, Option<u8>)", "V{i} {{ a: u8 }}", "V{i} {{ a: [u16; 2], b: u8 }}"]
    for imp in IMPORTS:
        for r in (1, 2, 3) if thorough else (1, 2):
            for vs in itertools.product(range(len(vshapes)), repeat=r):
                if imp != "path" and r > 1:
                    continue
                d = {0: "E::V0", 1: "E::V0()", 2: "E::V0 {}", 3: "E::V0(1)", 4: "E::V0(1, None)", 5: "E::V0 { a: 1 }", 6: "E::V0 { a: [1; 2], b: 1 }"}[vs[0]]
                add(f"eshape_{imp}_" + "_".join(map(str, vs)), attrs(imp, False) + "pub enum E { " + ", ".join(vshapes[v].format(i=i) for i, v in enumerate(vs)) + f" }}\nimpl Default for E {{ fn default() -> Self {{ {d} }} }}\n", imp)
    # generics of other kinds
    D, O = "#[derive(crabslab::SlabItem)]\n", "#[offsets]\n"
    for on, off in (("", ""), ("_offsets", O)):
        misc = {
            "two_params": "pub struct G<T, U> { pub a: T, pub b: U, pub c: T }",
            "three_params": "pub struct G<A, B, C>(pub A, pub B, pub C);",
            "param_in_type": "pub struct G<T: Default> { pub a: Option<T>, pub b: (T, u8) }",
            "param_in_array": "pub struct G<T: Copy + Default> { pub a: [T; 3] }",
            "param_in_array_where": "pub struct G<T> where T: Copy + Default { pub a: [T; 3], pub b: crabslab::Array<T> }",
            "const_param": "pub struct G<const N: usize> where [u32; N]: Default { pub a: [u32; N], pub b: u8 }",
            "const_and_type": "pub struct G<T: Copy + Default, const N: usize> where [T; N]: Default { pub a: [T; N], pub b: T }",
            "const_default": "pub struct G<const N: usize = 3> where [u32; N]: Default { pub a: [u32; N] }",
            "param_default": "pub struct G<T = u32> { pub a: T }",
            "param_default_bound": "pub struct G<T: crabslab::SlabItem = u32> { pub a: T, pub b: u8 }",
            "trailing_where": "pub struct G<T> where T: Clone, { pub a: T }",
            "empty_where": "pub struct G<T> where { pub a: T }",
            "tuple_where": "pub struct G<T, U>(pub T, pub U) where T: Clone, U: Copy;",
            "assoc": "pub trait Tr { type Out; }\n" + D + off + "pub struct G<T: Tr> where T::Out: crabslab::SlabItem, T: 'static { pub a: T::Out, pub b: ::core::marker::PhantomData<T> }",
            "hrtb": "pub struct G<T> where for<'a> &'a T: Into<u32> { pub a: T }",
            "static_lifetime": "pub struct G { pub a: ::core::marker::PhantomData<&'static str> }",
            "id_self": "pub struct Node { pub next: crabslab::Id<Self>, pub v: u32 }",
            "id_node": "pub struct Node { pub next: crabslab::Id<Node>, pub v: u32 }",
            "option_id_node": "pub struct Node { pub next: Option<crabslab::Id<Node>>, pub v: u32 }",
            "array_node": "pub struct Node { pub children: crabslab::Array<Node>, pub v: u32 }",
            "array_id_node": "pub struct Node { pub children: crabslab::Array<crabslab::Id<Node>>, pub v: u32 }",
            "array_self": "pub struct Node { pub children: crabslab::Array<Self>, pub v: u32 }",
            "generic_node": "pub struct Node<T> { pub next: crabslab::Id<Node<T>>, pub v: T }",
            "docs": "/// Docs\n#[allow(missing_docs)]\npub struct G { /// A\n pub a: u32, #[doc = \"b\"] pub b: u8 }",
            "cfgs": "pub struct G { #[cfg(all())] pub a: u32, #[cfg(any())] pub b: Missing, pub c: u8 }",
            "repr": "#[repr(C)]\npub struct G { pub a: u8, pub b: u32 }",
            "other_derives": "#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct G { pub a: u8, pub b: u32 }",
            "qualified": "pub struct G { pub a: ::core::primitive::u32, pub b: ::std::option::Option<u8>, pub c: (u8,), pub d: (((u8))) }",
            "const_expr": "pub const K: usize = 2;\n" + D + off + "pub struct G { pub a: [u8; K + 1], pub b: [u8; { 1 + 1 }] }",
            "alias": "pub type Al = [u32; 2];\n" + D + off + "pub struct G { pub a: Al, pub b: Al }",
            "same_types": "pub struct G { pub a: u32, pub b: u32, pub c: u32 }",
            "many_fields": "pub struct G { " + ", ".join(f"pub f{i}: {types[i % len(types)]}" for i in range(60)) + " }",
            "many_tuple": "pub struct G(" + ", ".join(f"pub {types[i % len(types)]}" for i in range(40)) + ");",
            "private_field_type": "#[derive(crabslab::SlabItem)]\nstruct Priv(u8);\n" + D + off + "pub struct G { a: Priv, pub b: u8 }",
            "non_default_field": D + "pub struct NoDefault(u8);\n" + D + off + "pub struct G { a: NoDefault, b: u8 }",
        }
        uses = {
            "two_params": ["G<u8, NI>"], "three_params": ["G<u8, u64, NI>"], "param_in_type": ["G<u8>"], "param_in_array": ["G<u8>"],
            "param_in_array_where": ["G<u8>"], "const_param": ["G<3>", "G<0>"], "const_and_type": ["G<u64, 3>"], "const_default": ["G"], "param_default": ["G", "G<u8>"],
            "param_default_bound": ["G", "G<u64>"], "trailing_where": ["G<u8>"], "empty_where": ["G<u8>"], "tuple_where": ["G<u8, u64>"], "generic_node": ["Node<u8>", "Node<Node<u8>>"],
            **{k: ["Node"] for k in ("id_self", "id_node", "option_id_node", "array_node", "array_id_node", "array_self")},
        }
        for k, v in misc.items():
            v += "\n" + use(*(t.replace("NI", "(u8, u64)") for t in uses.get(k, ["G"] if k not in ("assoc", "hrtb") else [])))
            lead = "" if v.startswith(("pub trait", "pub const", "pub type", "#[derive(crabslab")) else D + off
            add(f"misc_{k}{on}", lead + v + "\n")
        # generated by a macro
        add(f"macros{on}", "macro_rules! mk { ($n:ident, $f:ident, $t:ty, $g:ident) => { " + D + off + "pub struct $n { pub $f: $t, pub b: $t } " + D + off + "pub struct $g<$n>(pub $n, pub $t); } }\nmk!(A, index, (u8, u64), B);\nmk!(C, slab, Option<u8>, D);\n")
        add(f"in_function{on}", "pub fn f() {\n" + D + off + "struct S { a: u32, b: u64 }\n" + D + "#[derive(Default)]\nenum E { #[default] A, B(S2), C { x: u8 } }\n" + D + "struct S2(u8);\n}\n")
    emisc = {
        "generic_derive_default": "#[derive(Default)]\npub enum G<T> { #[default] A, B(T), C { x: T } }",
        "generic_bound_default": "#[derive(Default)]\npub enum G<T: Clone> { #[default] A, B(T), C { x: T } }",
        "generic_two": "#[derive(Default)]\npub enum G<T, U> where T: Copy { #[default] A, B(T, U), C { x: U, y: u8 } }",
        "const_param": "#[derive(Default)]\npub enum G<const N: usize> where [u32; N]: Default { #[default] A, B([u32; N]) }",
        "discriminants": "#[derive(Default)]\n#[repr(u8)]\npub enum G { #[default] A = 4, B = 1, C }",
        "discriminants_fields": "#[derive(Default)]\n#[repr(u8)]\npub enum G { #[default] A = 4, B(u32) = 1, C { x: u8 } = 9 }",
        "id_self": "#[derive(Default)]\npub enum G { #[default] A, B(crabslab::Id<Self>), C { x: crabslab::Id<G> } }",
        "array_self": "#[derive(Default)]\npub enum G { #[default] A, B(crabslab::Array<G>) }",
        "many": "#[derive(Default)]\npub enum G { #[default] A, " + ", ".join(f"V{i}(u8, u16)" if i % 2 else f"V{i} {{ a: u8, slab: u8 }}" for i in range(80)) + " }",
        "default_payload": "pub enum G { A(u32), B }\nimpl Default for G { fn default() -> Self { G::A(3) } }",
        "bounded_default": "pub enum G<T: Default> { A(T), B }\nimpl<T: Default> Default for G<T> { fn default() -> Self { G::A(T::default()) } }",
        "docs": "#[derive(Default)]\n/// E\npub enum G { /// A\n #[default] A, #[allow(dead_code)] B { /// x\n x: u8 }, #[cfg(any())] C(Missing) }",
        "nested": "#[derive(Default)]\npub enum G { #[default] A, B(H), C { h: Option<H> } }\n#[derive(crabslab::SlabItem, Default)]\npub enum H { A(u8), #[default] B }",
        "repeated_types": "#[derive(Default)]\npub enum G { #[default] A, B(u32, u32), C { x: u32, y: u32, z: u32 } }",
        "wide": "#[derive(Default)]\npub enum G { #[default] A, B(" + ", ".join(["u8"] * 30) + "), C { " + ", ".join(f"f{i}: u8" for i in range(30)) + " } }",
    }
    uses = {
        "generic_derive_default": ["G<u8>"], "generic_bound_default": ["G<u8>"], "generic_two": ["G<u8, u64>"], "const_param": ["G<3>"], "bounded_default": ["G<u8>"],
    }
    for k, v in emisc.items():
        v += "\n" + use(*uses.get(k, ["G"]))
        add(f"emisc_{k}", D + v + "\n")
    return out
