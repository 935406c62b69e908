"""C14: uses of a mock that must be accepted or refused by the compiler exactly like the same uses of the original.

Each case is a definition of an original (O) and of its mock (M) with a function that uses TYPE.  The program is compiled
once with TYPE = O and once with TYPE = M; the oracle is that both yield the same verdict, with the same error codes.
"""
import json
import os
import subprocess

VIS = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate::outer) "]
# where a use stands: same module, parent, the parent's parent, a sibling of the parent
PLACES = {
    "same": ("", "{}"), "parent": ("inner::", "{}"), "grandparent": ("outer::inner::", "{}"),
    "cousin": ("crate::outer::inner::", "{}"),
}
LINTS = ["unused_must_use", "unsafe_op_in_unsafe_fn"]


def place(defs, use, where, types):
    """A crate with `defs` in crate::outer::inner and `use` elsewhere"""
    path = {"same": "", "parent": "inner::", "grandparent": "outer::inner::", "cousin": "crate::outer::inner::"}[where]
    use = use.replace("TYPE", path + types)
    u = {w: "" for w in PLACES}
    u[where] = use
    return (f"pub mod outer {{ pub mod inner {{ #![allow(unused_imports)] use mockall::*;\n{defs}\n{u['same']}\n}}\n{u['parent']}\n}}\n"
            f"{u['grandparent']}\npub mod other {{ {u['cousin']} }}\n")


def vis_cases():
    for where in PLACES:
        for v in VIS:
            tag = (v.strip() or "private").replace(" ", "_") + "-from-" + where
            # methods of a struct
            yield (f"automock-impl-method-{tag}", f"pub struct O; #[automock] impl O {{ {v}fn foo(&self) -> u32 {{ 1 }} }} pub use self::MockO as M;",
                   "pub fn user(x: &TYPE) -> u32 { x.foo() }", where, "O", "MockO")
            yield (f"mock-method-{tag}", f"pub struct O; impl O {{ {v}fn foo(&self) -> u32 {{ 1 }} }} mock! {{ pub O {{ {v}fn foo(&self) -> u32; }} }}",
                   "pub fn user(x: &TYPE) -> u32 { x.foo() }", where, "O", "MockO")
            # the structs and traits themselves
            yield (f"mock-struct-{tag}", f"{v}struct O; impl O {{ pub fn foo(&self) -> u32 {{ 1 }} }} mock! {{ {v}O {{ pub fn foo(&self) -> u32; }} }}",
                   "fn user(x: &TYPE) -> u32 { x.foo() }", where, "O", "MockO")
            yield (f"automock-trait-{tag}", f"#[automock] {v}trait Tr {{ fn foo(&self) -> u32; }} {v}struct O; impl Tr for O {{ fn foo(&self) -> u32 {{ 1 }} }}",
                   "fn user(x: &TYPE) -> u32 { let _ = x; 1 }", where, "O", "MockTr")
            # modules and their functions
            yield (f"automock-module-{tag}", f"#[automock] {v}mod o {{ pub fn foo() -> u32 {{ 1 }} }}",
                   "fn user() -> u32 { TYPE::foo() }", where, "o", "mock_o")
            yield (f"automock-static-{tag}", f"pub struct O; #[automock] impl O {{ {v}fn foo() -> u32 {{ 1 }} }}",
                   "pub fn user() -> u32 { <TYPE>::foo() }", where, "O", "MockO")
            w = v.replace("pub(super)", "pub(in super::super)") if v == "pub(super) " else v
            yield (f"automock-function-{(w.strip() or 'private').replace(' ', '_')}-from-{where}", f"#[automock] pub mod o {{ {w}fn foo() -> u32 {{ 1 }} }}",
                   "fn user() -> u32 { TYPE::foo() }", where, "o", "mock_o") if w else None


BOTH = "pub struct O; #[automock] pub trait Tr { DECL } impl Tr for O { IMPL }"


def tr(decl, body="{ unimplemented!() }", g="", attr=""):
    """An original that implements a trait, by #[automock] and by mock!"""
    impl = decl.replace(";", " " + body)
    plain = "\n".join(l for l in impl.splitlines() if "must_use" not in l and "deprecated" not in l)
    return [
        ("automock-trait", f"{attr}pub struct O; #[automock] pub trait Tr {{ {decl} }} impl Tr for O {{ {plain} }}", "MockTr"),
        ("mock-trait", f"pub struct O; pub trait Tr {{ {decl} }} impl Tr for O {{ {plain} }} mock! {{ pub X {{}} impl Tr for X {{ {decl} }} }}", "MockX"),
        ("automock-impl-trait", f"pub struct O; pub trait Tr {{ {decl} }} #[automock] impl Tr for O {{ {plain} }}", "MockO"),
    ]


def inh(decl, body="{ unimplemented!() }"):
    d = decl if decl.startswith(("pub", "#")) else "pub " + decl
    return [
        ("automock-impl", f"pub struct O; #[automock] impl O {{ {d.replace(';', ' ' + body)} }}", "MockO"),
        ("mock-inherent", f"pub struct O; impl O {{ {d.replace(';', ' ' + body)} }} mock! {{ pub O {{ {d} }} }}", "MockO"),
    ]


def module(decl, body="{ unimplemented!() }"):
    d = decl if decl.startswith(("pub", "#")) else "pub " + decl
    return [("automock-module", f"#[automock] pub mod o {{ #![allow(unused_imports)] use super::*; {d.replace(';', ' ' + body)} }}", "mock_o")]


# name, method, trait-dependent uses (x: T where T is the type)
USES = [
    ("unsafe", "unsafe fn foo(&self) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo() }", "pub fn user(x: &TYPE) -> u32 { unsafe { x.foo() } }"], "both"),
    ("safe", "fn foo(&self) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo() }", "#[deny(unused_unsafe)] pub fn user(x: &TYPE) -> u32 { unsafe { x.foo() } }"], "both"),
    ("mut", "fn foo(&mut self) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo() }", "pub fn user(x: &mut TYPE) -> u32 { x.foo() }"], "both"),
    ("value", "fn foo(self) -> u32;", ["pub fn user(x: TYPE) -> u32 { x.foo(); x.foo() }", "pub fn user(x: TYPE) -> u32 { x.foo() }", "pub fn user(x: &TYPE) -> u32 { x.foo() }"], "both"),
    ("boxed", "fn foo(self: Box<Self>) -> u32;", ["pub fn user(x: Box<TYPE>) -> u32 { x.foo() }", "pub fn user(x: TYPE) -> u32 { x.foo() }"], "both"),
    ("pinned", "fn foo(self: std::pin::Pin<&mut Self>) -> u32;", ["pub fn user(x: std::pin::Pin<&mut TYPE>) -> u32 { x.foo() }", "pub fn user(x: &mut TYPE) -> u32 { x.foo() }"], "both"),
    ("static", "fn foo() -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo() }", "pub fn user() -> u32 { <TYPE>::foo() }", "pub fn user() -> fn() -> u32 { <TYPE>::foo }"], "both"),
    ("argument types", "fn foo(&self, x: u32, y: &str) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo(1, \"2\") }", "pub fn user(x: &TYPE) -> u32 { x.foo(\"2\", 1) }",
      "pub fn user(x: &TYPE) -> u32 { x.foo(1) }", "pub fn user(x: &TYPE) -> u32 { x.foo(1u64, \"\") }", "pub fn user(x: &TYPE) -> u64 { x.foo(1, \"\") }",
      "pub fn user(x: &TYPE) -> u32 { x.foo(1, &String::new()) }", "pub fn user() -> fn(&TYPE, u32, &str) -> u32 { <TYPE>::foo }"], "both"),
    ("mut binding", "fn foo(&self, x: u32) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo(1) }"], "both"),
    ("bounds", "fn foo<T: Clone + 'static>(&self, x: T) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo(String::new()) }", "pub fn user(x: &TYPE) -> u32 { struct N; x.foo(N) }",
      "pub fn user(x: &TYPE, s: &u8) -> u32 { x.foo::<u8>(*s) }", "pub fn user<'q>(x: &TYPE, s: &'q u8) -> u32 { x.foo::<&'q u8>(s) }"], "both"),
    ("where clause", "fn foo<T>(&self, x: T) -> u32 where T: std::fmt::Display + 'static;", ["pub fn user(x: &TYPE) -> u32 { x.foo(1u8) }", "pub fn user(x: &TYPE) -> u32 { x.foo(vec![1u8]) }"], "both"),
    ("two parameters", "fn foo<T: 'static, U: From<T> + 'static>(&self, x: T) -> U;", ["pub fn user(x: &TYPE) -> u32 { x.foo(1u8) }", "pub fn user(x: &TYPE) -> u8 { x.foo(1u32) }",
      "pub fn user(x: &TYPE) -> u32 { x.foo::<u8, u32>(1) }", "pub fn user(x: &TYPE) -> u32 { x.foo::<u32, u8>(1) }"], "both"),
    ("returned reference", "fn foo(&self) -> &u32;", ["pub fn user(x: &TYPE) -> &u32 { x.foo() }", "pub fn user(x: TYPE) -> u32 { let r = x.foo(); drop(x); *r }",
      "pub fn user(x: &TYPE) -> &'static u32 { x.foo() }", "pub fn user(x: &TYPE) { *x.foo() = 1; }"], "both"),
    ("returned mutable reference", "fn foo(&mut self) -> &mut u32;", ["pub fn user(x: &mut TYPE) { *x.foo() = 1; }", "pub fn user(x: &mut TYPE) { let a = x.foo(); let b = x.foo(); *a = *b; }",
      "pub fn user(x: &TYPE) { *x.foo() = 1; }"], "both"),
    ("static reference", "fn foo(&self) -> &'static str;", ["pub fn user(x: TYPE) -> &'static str { x.foo() }", "pub fn user(x: TYPE) -> String { x.foo() }"], "both"),
    ("lifetimes", "fn foo<'a>(&self, x: &'a u32, y: Option<&'a u32>) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo(&1, Some(&2)) }", "pub fn user(x: &TYPE) -> u32 { let y = 5; let z = &y; x.foo(z, None) }",
      "pub fn user(x: &TYPE) -> u32 { x.foo(&1, Some(2)) }"], "both"),
    ("must_use", "#[must_use] fn foo(&self) -> u32;", ["#[deny(unused_must_use)] pub fn user(x: &TYPE) { x.foo(); }", "#[deny(unused_must_use)] pub fn user(x: &TYPE) { let _ = x.foo(); }"], "inherent"),
    ("no must_use", "fn foo(&self) -> u32;", ["#[deny(unused_must_use)] pub fn user(x: &TYPE) { x.foo(); }"], "both"),
    ("result", "fn foo(&self) -> Result<u8, u8>;", ["#[deny(unused_must_use)] pub fn user(x: &TYPE) { x.foo(); }", "pub fn user(x: &TYPE) -> Result<u8, u8> { let y = x.foo()?; Ok(y) }"], "both"),
    ("async", "async fn foo(&self) -> u32;", ["pub async fn user(x: &TYPE) -> u32 { x.foo().await }", "pub fn user(x: &TYPE) -> u32 { x.foo() }",
      "#[deny(unused_must_use)] pub fn user(x: &TYPE) { x.foo(); }"], "both"),
    ("impl Trait", "fn foo(&self) -> impl Iterator<Item = u32>;", ["pub fn user(x: &TYPE) -> u32 { x.foo().sum() }", "pub fn user(x: &TYPE) -> Vec<u64> { x.foo().collect() }",
      "pub fn user(x: &TYPE) -> usize { x.foo().len() }"], "inherent-iter"),
    ("extern", "extern \"C\" fn foo(&self, x: u32) -> u32;", ["pub fn user() -> extern \"C\" fn(&TYPE, u32) -> u32 { <TYPE>::foo }", "pub fn user() -> fn(&TYPE, u32) -> u32 { <TYPE>::foo }"], "both"),
    ("unsafe extern", "unsafe extern \"C\" fn foo(&self, x: u32) -> u32;", ["pub fn user() -> unsafe extern \"C\" fn(&TYPE, u32) -> u32 { <TYPE>::foo }", "pub fn user() -> extern \"C\" fn(&TYPE, u32) -> u32 { <TYPE>::foo }"], "both"),
    ("unsafe static", "unsafe fn foo(x: u32) -> u32;", ["pub fn user() -> unsafe fn(u32) -> u32 { <TYPE>::foo }", "pub fn user() -> fn(u32) -> u32 { <TYPE>::foo }", "pub fn user() -> u32 { <TYPE>::foo(1) }"], "both"),
    ("absent", "#[cfg(any())] fn foo(&self) -> u32; fn bar(&self);", ["pub fn user(x: &TYPE) -> u32 { x.foo() }", "pub fn user(x: &TYPE) { x.bar() }"], "both-noreal"),
    ("present", "#[cfg(all())] fn foo(&self) -> u32;", ["pub fn user(x: &TYPE) -> u32 { x.foo() }"], "both"),
]
MODUSES = [
    ("unsafe", "unsafe fn foo() -> u32;", ["pub fn user() -> u32 { TYPE::foo() }", "pub fn user() -> u32 { unsafe { TYPE::foo() } }", "pub fn user() -> fn() -> u32 { TYPE::foo }"]),
    ("arguments", "fn foo(x: u32, y: &str) -> u32;", ["pub fn user() -> u32 { TYPE::foo(1, \"\") }", "pub fn user() -> u32 { TYPE::foo(1) }", "pub fn user() -> u64 { TYPE::foo(1, \"\") }", "pub fn user() -> fn(u32, &str) -> u32 { TYPE::foo }"]),
    ("bounds", "fn foo<T: Clone + 'static>(x: T) -> T;", ["pub fn user() -> u32 { TYPE::foo(1) }", "pub fn user() { struct N; TYPE::foo(N); }", "pub fn user() -> u8 { TYPE::foo::<u8>(2) }"]),
    ("must_use", "#[must_use] pub fn foo() -> u32;", ["#[deny(unused_must_use)] pub fn user() { TYPE::foo(); }"]),
    ("async", "async fn foo() -> u32;", ["pub async fn user() -> u32 { TYPE::foo().await }", "pub fn user() -> u32 { TYPE::foo() }"]),
    ("extern", "extern \"C\" fn foo(x: u32) -> u32;", ["pub fn user() -> extern \"C\" fn(u32) -> u32 { TYPE::foo }", "pub fn user() -> fn(u32) -> u32 { TYPE::foo }"]),
    ("absent", "#[cfg(any())] pub fn foo() -> u32;", ["pub fn user() -> u32 { TYPE::foo() }"]),
    ("constant", "const LIMIT: u32 = 5;", ["pub fn user() -> u32 { TYPE::LIMIT }", "pub fn user() -> [u8; TYPE::LIMIT as usize] { [0; 5] }", "pub fn user() -> [u8; TYPE::LIMIT as usize] { [0; 4] }"]),
    ("type", "type Alias = u32;", ["pub fn user() -> TYPE::Alias { 5u32 }", "pub fn user() -> TYPE::Alias { 5u8 }"]),
]
# whole programs with TYPE
WHOLE = [
    ("generic-bounds", "#[automock] pub trait Tr<T: Clone + 'static> { fn foo(&self, x: T) -> u32; } pub struct O<T: Clone + 'static>(T); impl<T: Clone + 'static> Tr<T> for O<T> { fn foo(&self, _: T) -> u32 { 1 } }", "MockTr",
     ["pub fn user(x: &TYPE<u8>) -> u32 { x.foo(1) }", "pub struct N; pub fn user(x: &TYPE<N>) -> u32 { x.foo(N) }", "pub fn user(x: &TYPE<u8>) -> u32 { x.foo(\"\") }"]),
    ("generic-impl", "pub struct O<T: Clone + 'static>(T); #[automock] impl<T: Clone + 'static> O<T> { pub fn foo(&self, _x: T) -> T { unimplemented!() } }", "MockO",
     ["pub fn user(x: &TYPE<u8>) -> u8 { x.foo(1) }", "pub struct N; pub fn user(x: &TYPE<N>) -> N { x.foo(N) }", "pub fn user<T: Clone + 'static>(x: &TYPE<T>, t: T) -> T { x.foo(t) }", "pub fn user<T: 'static>(x: &TYPE<T>, t: T) -> T { x.foo(t) }"]),
    ("associated-type", "pub trait Tr { type Item: Clone; const N: u8; fn foo(&self) -> Option<Self::Item>; } pub struct O; impl Tr for O { type Item = u16; const N: u8 = 3; fn foo(&self) -> Option<u16> { None } } "
     "mock! { pub O {} impl Tr for O { type Item = u16; const N: u8 = 3; fn foo(&self) -> Option<u16>; } }", "MockO",
     ["pub fn user(x: &TYPE) -> u16 { x.foo().unwrap() }", "pub fn user() { fn n<T: Tr<Item = u16>>() {} n::<TYPE>() }", "pub fn user() { fn n<T: Tr<Item = u8>>() {} n::<TYPE>() }",
      "pub fn user() -> [u8; <TYPE as Tr>::N as usize] { [0; 3] }", "pub fn user() -> [u8; <TYPE as Tr>::N as usize] { [0; 2] }", "pub fn user(x: &dyn Tr<Item = u16>, y: &TYPE) { let z: &dyn Tr<Item = u16> = y; let _ = (x, z); }"]),
    ("unsafe-trait", "#[automock] pub unsafe trait Tr { fn foo(&self) -> u32; } pub struct O; unsafe impl Tr for O { fn foo(&self) -> u32 { 1 } }", "MockTr",
     ["pub fn user() { fn n<T: Tr>() {} n::<TYPE>() }", "pub fn user(x: &TYPE) -> u32 { x.foo() }"]),
    ("supertrait", "pub trait Sup { fn sup(&self) -> u8; } pub trait Tr: Sup { fn foo(&self) -> u32; } pub struct O; impl Sup for O { fn sup(&self) -> u8 { 1 } } impl Tr for O { fn foo(&self) -> u32 { 1 } } "
     "mock! { pub O {} impl Sup for O { fn sup(&self) -> u8; } impl Tr for O { fn foo(&self) -> u32; } }", "MockO",
     ["pub fn user(x: &TYPE) -> u8 { x.sup() }", "pub fn user() { fn n<T: Tr + Sup>() {} n::<TYPE>() }", "pub fn user(x: &TYPE) -> &dyn Tr { x }", "pub fn user() { fn n<T: Clone>() {} n::<TYPE>() }"]),
    ("threads", "#[automock] pub trait Tr { fn foo(&self) -> u32; } pub struct O; impl Tr for O { fn foo(&self) -> u32 { 1 } }", "MockTr",
     ["pub fn user(x: TYPE) { std::thread::spawn(move || x.foo()); }", "pub fn user() { fn n<T: Send + Sync + 'static>() {} n::<TYPE>() }"]),
    ("several-impls", "pub trait Ta { fn a(&self) -> u8; } pub trait Tb<X> { fn b(&self, x: X) -> u8; } pub struct O; impl Ta for O { fn a(&self) -> u8 { 1 } } impl Tb<u8> for O { fn b(&self, _: u8) -> u8 { 2 } } "
     "mock! { pub O {} impl Ta for O { fn a(&self) -> u8; } impl Tb<u8> for O { fn b(&self, x: u8) -> u8; } }", "MockO",
     ["pub fn user(x: &TYPE) -> u8 { x.a() + x.b(1) }", "pub fn user() { fn n<T: Tb<u16>>() {} n::<TYPE>() }", "pub fn user() { fn n<T: Tb<u8> + Ta>() {} n::<TYPE>() }"]),
    ("self-arguments", "pub trait Tr { fn same(&self, o: &Self) -> bool; fn make(&self) -> Self where Self: Sized; } pub struct O; impl Tr for O { fn same(&self, _: &Self) -> bool { true } fn make(&self) -> Self { O } } "
     "mock! { pub O {} impl Tr for O { fn same(&self, o: &Self) -> bool; fn make(&self) -> Self where Self: Sized; } }", "MockO",
     ["pub fn user(x: &TYPE) -> TYPE { let y = x.make(); x.same(&y); y }", "pub fn user(x: &TYPE) -> bool { x.same(&1) }"]),
]


def cases():
    out = []
    for c in vis_cases():
        if c is None:
            continue
        name, defs, use, where, o, mk = c
        out.append((name, place(defs, use, where, o), place(defs, use, where, mk)))
    for n, decl, uses, kinds in USES:
        forms = inh(decl)
        if kinds in ("both",):
            forms = forms + tr(decl)
        if kinds == "inherent-iter":
            forms = inh(decl, "{ std::iter::once(1u32) }") + tr(decl, "{ std::iter::once(1u32) }")
        for k, defs, mk in forms:
            for i, u in enumerate(uses):
                src = "#![allow(unused_imports, dead_code, async_fn_in_trait, improper_ctypes_definitions)]\nuse mockall::*;\n%s\n%s\n"
                out.append((f"{k}-{n}-{i}".replace(" ", "_"), src % (defs, u.replace("TYPE", "O")), src % (defs, u.replace("TYPE", mk))))
    for n, decl, uses in MODUSES:
        for k, defs, mk in (module(decl) if "fn" in decl else [("automock-module", f"#[automock] pub mod o {{ pub {decl} }}", "mock_o")]):
            for i, u in enumerate(uses):
                src = "#![allow(unused_imports, dead_code, improper_ctypes_definitions)]\nuse mockall::*;\n%s\n%s\n"
                out.append((f"{k}-{n}-{i}".replace(" ", "_"), src % (defs, u.replace("TYPE", "o")), src % (defs, u.replace("TYPE", mk))))
    for n, defs, mk, uses in WHOLE:
        for i, u in enumerate(uses):
            src = "#![allow(unused_imports, dead_code)]\nuse mockall::*;\n%s\n%s\n"
            out.append((f"whole-{n}-{i}", src % (defs, u.replace("TYPE", "O")), src % (defs, u.replace("TYPE", mk))))
    return out


def compile_one(rustc, flags, path, text):
    """(error codes, messages) of a program: ([], []) if it compiles"""
    with open(path, "w") as h:
        h.write(text)
    r = subprocess.run([*rustc, "--edition", "2021", "--crate-type", "lib", "--crate-name", "fit", "--emit=metadata", "--error-format=json",
                        "-A", "warnings", "-o", path + ".rmeta", *flags, path], capture_output=True, text=True, timeout=300)
    codes = []
    texts = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            d = json.loads(line)
            if d.get("level") == "error":
                texts.append(d["message"])
                if d.get("code"):
                    codes.append(d["code"]["code"])
    for x in (path + ".rmeta",):
        if os.path.exists(x):
            os.unlink(x)
    if r.returncode == 0:
        return [], []
    if not texts:
        raise RuntimeError(f"rustc ended with {r.returncode}: {r.stderr[-400:]}")
    return sorted(set(codes)) or ["error"], texts


def agree(a, b):
    """The compiler treats both alike: accepts both, or refuses both for a common reason"""
    return bool(a) == bool(b) and (not a or bool(set(a) & set(b)))
