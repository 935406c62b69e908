"""C20: generate foreign functions, C code that calls them, and their mocks."""
import os
import random

SCALARS = [
    ("u8", "uint8_t"), ("i8", "int8_t"), ("u16", "uint16_t"), ("i16", "int16_t"), ("u32", "uint32_t"),
    ("i32", "int32_t"), ("u64", "uint64_t"), ("i64", "int64_t"), ("usize", "size_t"), ("isize", "intptr_t"),
    ("f32", "float"), ("f64", "double"), ("bool", "bool"), ("c_int", "int"), ("c_uint", "unsigned"),
    ("c_long", "long"), ("c_uchar", "unsigned char"), ("c_short", "short"), ("c_double", "double"), ("c_float", "float"),
]
# (Rust block, C attribute, ABI of the mock, may unwind)
MODULES = [
    ("m0", 'extern "C"', "", "C-unwind"),
    ("m1", "extern", "", "C-unwind"),
    ("m2", 'extern "system"', "", "system-unwind"),
    ("m3", 'extern "C-unwind"', "", "C-unwind"),
    ("m4", 'extern "win64"', "__attribute__((ms_abi)) ", "win64-unwind"),
    ("m5", 'extern "sysv64"', "", "sysv64-unwind"),
    ("m6", 'pub extern "C" fn', "", "C"),
    ("m7", 'pub unsafe extern "C-unwind" fn', "", "C-unwind"),
]


class T:
    """A parameter or return type"""

    def __init__(self, rust, c, send=True, kind="val", inner=None):
        self.rust, self.c, self.send, self.kind, self.inner = rust, c, send, kind, inner

    def stored(self):
        """in the struct of arguments"""
        if self.kind == "ref":
            return f"*const {self.inner}"
        if self.kind == "mut":
            return f"*mut {self.inner}"
        return self.rust

    def arb(self):
        if self.kind == "ref":
            return f"frozen::<{self.inner}>(r)"
        if self.kind == "mut":
            return f"fresh::<{self.inner}>(r)"
        return f"<{self.rust} as V>::arb(r)"

    def passed(self, e):
        return {"ref": f"&*{e}", "mut": f"&mut *{e}"}.get(self.kind, e)

    def bits(self, e, by_ref):
        """of a callback's parameter"""
        if self.kind == "ref":
            return f"(({e}) as *const {self.inner}).bits(&mut v);"
        if self.kind == "mut":
            return f"((&raw const *{e}) as *const {self.inner}).bits(&mut v);"
        return f"V::bits({e}, &mut v);" if by_ref else f"V::bits(&{e}, &mut v);"

    def poke(self, e):
        if self.kind == "ref":
            return ""
        if self.kind == "mut":
            return f"(&raw mut *{e}).poke(r);"
        return f"V::poke(&{e}, r);"


def generate(seed, nfuns, out, repo, harness, variadic=False):
    rnd = random.Random(seed)
    rust, c = [], []
    structs = []
    for i in range(10):
        fields = []
        for j in range(rnd.choice([1, 1, 2, 2, 3, 4, 6, 9])):
            k = rnd.random()
            if k < 0.12 and structs:
                s = rnd.choice(structs)
                fields.append((s, s, ""))
            elif k < 0.25:
                n = rnd.randint(1, 5)
                a, b = rnd.choice(SCALARS)
                fields.append((f"[{a}; {n}]", b, f"[{n}]"))
            elif k < 0.33:
                a, b = rnd.choice(SCALARS)
                fields.append((f"*mut {a}", f"{b} *", ""))
            else:
                a, b = rnd.choice(SCALARS if rnd.random() < 0.7 else SCALARS[10:12])
                fields.append((a, b, ""))
        n = f"S{i}"
        rust.append("#[repr(C)]\n#[derive(Clone, Copy)]\npub struct %s { %s }" %
                    (n, ", ".join(f"pub x{j}: {f[0]}" for j, f in enumerate(fields))))
        rust.append("impl V for %s { fn arb(r: &mut Rng) -> Self { %s { %s } } fn bits(&self, v: &mut Vec<u64>) { %s } "
                    "fn poke(&self, r: &mut Rng) { %s } }" %
                    (n, n, ", ".join(f"x{j}: V::arb(r)" for j in range(len(fields))),
                     " ".join(f"V::bits(&self.x{j}, v);" for j in range(len(fields))),
                     " ".join(f"V::poke(&self.x{j}, r);" for j, f in enumerate(fields))))
        c.append("typedef struct %s { %s } %s;" % (n, " ".join(f"{f[1]} x{j}{f[2]};" for j, f in enumerate(fields)), n))
        structs.append(n)
    sendable = {s: "*mut" not in r for s, r in zip(structs, rust[0::2])}
    for s, r in zip(structs, rust[0::2]):
        if any(f": {t} " in r or f": {t}," in r for t, ok in sendable.items() if not ok and t != s):
            sendable[s] = False
    rust.append("""#[repr(C)]
#[derive(Clone, Copy)]
#[allow(dead_code)]
pub enum En { A = 0, B = 5, C = -7 }
impl V for En { fn arb(r: &mut Rng) -> Self { [En::A, En::B, En::C][r.below(3)] } fn bits(&self, v: &mut Vec<u64>) { v.push(*self as i64 as u64) } }
#[repr(C)]
#[derive(Clone, Copy)]
pub union Un { a: u32, b: f32, c: u64 }
impl V for Un { fn arb(r: &mut Rng) -> Self { Un { c: r.next() } } fn bits(&self, v: &mut Vec<u64>) { v.push(unsafe { self.c }) } }""")
    c.append("typedef enum { A = 0, B = 5, C = -7 } En;\ntypedef union { uint32_t a; float b; uint64_t c; } Un;\n"
             "typedef int32_t (*Cb)(int32_t);")

    def value(ret=False):
        k = rnd.random()
        if k < 0.5:
            a, b = rnd.choice(SCALARS)
            return T(a, b)
        if k < 0.72:
            s = rnd.choice(structs)
            return T(s, s, sendable[s])
        if k < 0.76:
            return T("En", "En")
        if k < 0.80:
            return T("Un", "Un")
        if k < 0.90:
            a, b = rnd.choice(SCALARS + [("c_char", "char")] * 6 + [(s, s) for s in structs])
            m = rnd.choice(["const", "mut"])
            return T(f"*{m} {a}", f"const {b} *" if m == "const" else f"{b} *", False)
        if k < 0.93:
            return T("*mut c_void", "void *", False)
        if k < 0.97 or ret:
            return T("Option<Cb>", "Cb") if rnd.random() < 0.6 else T("Cb", "Cb")
        a, b = rnd.choice(SCALARS[2:] + [(s, s) for s in structs])
        if rnd.random() < 0.5:
            return T(f"&{a}", f"const {b} *", kind="ref", inner=a)
        return T(f"&mut {a}", f"{b} *", kind="mut", inner=a)

    mods = {m[0]: [] for m in MODULES}
    entries, drivers, decls = [], [], []
    keywords = ["match", "type", "move", "impl"]
    for i in range(nfuns):
        mod, block, attr, abi = MODULES[i % len(MODULES)] if i < 2 * len(MODULES) else rnd.choice(MODULES)
        sym = keywords.pop() if keywords and i % 7 == 3 else f"ff_{i}_{rnd.choice(['get', 'set', 'run', 'a', 'x' if 'fn' in block else 'Open'])}"
        rname = sym if sym.startswith("ff_") else "r#" + sym
        ps = [value() for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 11]))]
        ret = None if rnd.random() < 0.15 else value(True)
        defined = "fn" in block
        rr = ret.rust if ret else "()"
        sig = ", ".join(f"a{j}: {p.rust}" for j, p in enumerate(ps))
        arrow = f" -> {rr}" if ret else ""
        vis = rnd.choice(["pub", "pub(crate)", "pub(super)"])
        if defined:
            unsafe = "unsafe" in block
            mods[mod].append(f"{vis}{block[3:]} {rname}({sig}){arrow} {{ let _ = ({''.join(f'a{j},' for j in range(len(ps)))}); ::std::process::abort() }}")
        else:
            unsafe = True
            dots = ", ..." if variadic and mod == "m0" and ps and i % 2 == 0 else ""
            mods[mod].append((block, f"{vis} fn {rname}({sig}{dots}){arrow};", bool(dots)))
        dots = (not defined) and mods[mod][-1][2]
        # C side
        cr = ret.c if ret else "void"
        cs = ", ".join(f"{p.c} a{j}" for j, p in enumerate(ps)) or "void"
        c.append(f"extern {cr} {attr}{sym}({cs}{', ...' if dots else ''});")
        c.append(f"typedef struct {{ {' '.join(f'{p.c} a{j};' for j, p in enumerate(ps)) or 'char dummy;'} }} A{i};")
        args = ", ".join(f"a->a{j}" for j in range(len(ps)))
        if dots:
            args += rnd.choice(["", ", 7", ", 7, 2.5", ", \"x\", 3.5, 1L, 2L, 3L, 4L, 5L"])
        st = "*r = " if ret else ""
        rp = f"{cr} *r" if ret else "void *r"
        c.append(f"""static void t{i}(void **v) {{ const A{i} *a = v[0]; {rp} = v[1]; (void)a; (void)r; {st}{sym}({args}); }}
static void *tt{i}(void *v) {{ t{i}(v); return 0; }}
void call_{i}(const A{i} *a, {rp}, int how) {{
    (void)a; (void)r;
    if (how == 0) {{ {st}{sym}({args}); }}
    else if (how == 1) {{ __typeof__(&{sym}) volatile p = &{sym}; {st}p({args}); }}
    else {{ void *v[2] = {{ (void *)a, (void *)r }}; pthread_t t; if (pthread_create(&t, 0, tt{i}, v)) abort(); pthread_join(t, 0); }}
}}
void *addr_{i}(void) {{ return (void *)&{sym}; }}""")
        # Rust side
        decls.append(f"    fn call_{i}(a: *const A{i}, r: *mut {rr}, how: i32);\n    fn addr_{i}() -> usize;")
        names = ", ".join(f"a{j}" for j in range(len(ps)))
        mbits = " ".join(p.bits(f"a{j}", True) for j, p in enumerate(ps))
        cbits = " ".join(p.bits(f"a{j}", False) for j, p in enumerate(ps))
        pokes = " ".join(p.poke(f"a{j}") for j, p in enumerate(ps))
        path = f"mock_{mod}::{rname}"
        extra = ", 1, 2.5f64" if dots else ""
        callargs = ", ".join(p.passed(f"a.a{j}") for j, p in enumerate(ps))
        fnty = f'{"unsafe " if unsafe else ""}extern "{abi}" fn({", ".join(p.rust for p in ps)}{", ..." if dots else ""}){arrow}'
        const = ret is None or ret.send
        annotated = ", ".join(f"a{j}: {p.rust}" for j, p in enumerate(ps))
        retc = (f"2 => {{ let x: {rr} = expected(&q); drop(e.return_const(x)); }}" if const else "")
        drivers.append(f"""
#[repr(C)]
#[derive(Clone, Copy)]
pub struct A{i} {{ {', '.join(f'a{j}: {p.stored()}' for j, p in enumerate(ps)) or 'dummy: u8'} }}
#[allow(unused_variables, unused_mut)]
fn expect_{i}(cx: &dyn Any, p: Plan) {{
    let cx: &mock_{mod}::__{sym}::Context = cx.downcast_ref().unwrap();
    let mut e = cx.expect();
    if p.max == usize::MAX {{ e.times(p.min..); }} else {{ e.times(p.min..=p.max); }}
    {{ let p = p.clone(); e.withf(move |{names}| {{ let mut v = vec![]; {mbits} matcher(&p, v) }}); }}
    let prov = p.prov;
    let cl = move |{annotated}| -> {rr} {{
        let mut v = vec![]; {cbits}
        let r = &mut answering(&p, v);
        {pokes}
        let mut v = vec![]; {cbits}
        answer(&p, v)
    }};
    match prov {{
        1 => drop(e.return_once(cl)),
        {retc}
        _ => drop(e.returning(cl)),
    }}
}}
#[allow(unused_variables)]
fn make_{i}(r: &mut Rng) -> (Vec<u64>, Box<dyn Fn() -> Vec<u64>>, Box<dyn Fn(i32) -> Box<dyn FnOnce() -> Vec<u64>>>) {{
    let a = A{i} {{ {', '.join(f'a{j}: {p.arb()}' for j, p in enumerate(ps)) or 'dummy: 0'} }};
    let b = move || {{ let mut v = vec![]; {' '.join(f'a.a{j}.bits(&mut v);' for j in range(len(ps)))} v }};
    (b(), Box::new(b), Box::new(move |how| Box::new(move || unsafe {{
        let mut r = MaybeUninit::<{rr}>::uninit();
        match how {{
            0..=2 => call_{i}(&a, r.as_mut_ptr(), how),
            3 => drop(r.write({path}({callargs}{extra}))),
            _ => {{ let p: {fnty} = {path}; drop(r.write(black_box(p)({callargs}{extra}))) }}
        }}
        bits(&r.assume_init())
    }})))
}}""")
        if const:
            drivers[-1] = drivers[-1].replace("    let prov = p.prov;", "    let prov = p.prov;\n    let q = p.clone();")
        entries.append(
            "    Entry { name: \"%s\", module: \"mock_%s\", abi: r#\"%s\"#, unwinds: %s, constant: %s,\n"
            "        open: || Box::new(mock_%s::%s_context()), checkpoint: |cx| cx.downcast_ref::<mock_%s::__%s::Context>().unwrap().checkpoint(),\n"
            "        expect: expect_%d, call: make_%d, expected: |p| { let p = p.clone(); Box::new(move || bits(&expected::<%s>(&p))) },\n"
            "        addresses: || (unsafe { addr_%d() }, mock_%s::%s as *const () as usize), module_checkpoint: mock_%s::checkpoint }," %
            (sym, mod, block, str(abi != "C").lower(), str(const).lower(), mod, sym, mod, sym, i, i, rr, i, mod, rname, mod))
    modtext = []
    for mod, block, attr, abi in MODULES:
        items = mods[mod]
        if not items:
            continue
        body = []
        if "fn" in block:
            body = ["    " + x for x in items]
        else:
            # one or several blocks
            while items:
                n = rnd.randint(1, len(items))
                body += [f"    {block} {{"] + ["        " + x[1] for x in items[:n]] + ["    }"]
                items = items[n:]
        if rnd.random() < 0.5:
            body.insert(0, "    pub type Unused = u32;")
        modtext.append("#[automock]\npub mod %s {\n    use super::*;\n%s\n}" % (mod, "\n".join(body)))
    main = """// generated: seed %d
#![allow(dead_code, unused_mut, unused_imports, improper_ctypes, improper_ctypes_definitions, missing_abi, unused_unsafe, clippy::all, unused_parens, redundant_semicolons, dropping_copy_types, unused_must_use, dropping_references)]
%s
use mockall::*;
use std::any::Any;
use std::ffi::{c_char, c_double, c_float, c_int, c_long, c_short, c_uchar, c_uint, c_void};
use std::hint::black_box;
use std::mem::MaybeUninit;
use vh::ffi::*;
use vh::rng::Rng;

%s

%s

#[link(name = "vhc", kind = "static")]
extern "C-unwind" {
%s
    fn callback(k: i32) -> Cb;
}
%s

static ENTRIES: &[Entry] = &[
%s
];
fn main() {
    let _ = CALLBACKS.set((0..4).map(|k| unsafe { callback(k) }).collect());
    vh::mon::drive(&[("ffi", |r, m| history(r, m, ENTRIES))]);
}
""" % (seed, "#![feature(c_variadic)]" if variadic else "", "\n".join(rust), "\n".join(modtext), "\n".join(decls), "\n".join(drivers), "\n".join(entries))
    ctext = """#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <pthread.h>
%s
static int32_t cb0(int32_t x) { return (int32_t)(3u * (uint32_t)x); }
static int32_t cb1(int32_t x) { return (int32_t)(3u * (uint32_t)x + 1); }
static int32_t cb2(int32_t x) { return (int32_t)(3u * (uint32_t)x + 2); }
static int32_t cb3(int32_t x) { return (int32_t)(3u * (uint32_t)x + 3); }
Cb callback(int32_t k) { Cb t[] = { cb0, cb1, cb2, cb3 }; return t[k]; }
""" % "\n".join(c)
    cargo = """[package]
name = "vhffi"
version = "0.1.0"
edition = "2021"
build = "build.rs"

[workspace]

[dependencies]
mockall = { path = "%s/mockall" }
vh = { path = "%s" }

[features]
nightly = ["mockall/nightly", "vh/nightly"]

[profile.dev]
debug = 0
incremental = false
""" % (repo, harness)
    build = """fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut std::process::Command| assert!(c.status().unwrap().success(), "{c:?}");
    ok(std::process::Command::new("gcc").args(["-c", "-O1", "-g0", "-fexceptions", "-fPIC", "-w", "gen.c", "-o"]).arg(format!("{o}/gen.o")));
    ok(std::process::Command::new("ar").arg("crs").arg(format!("{o}/libvhc.a")).arg(format!("{o}/gen.o")));
    println!("cargo:rustc-link-search=native={o}");
    println!("cargo:rerun-if-changed=gen.c");
}
"""
    os.makedirs(os.path.join(out, "src"), exist_ok=True)
    files = {"Cargo.toml": cargo, "build.rs": build, "gen.c": ctext, "src/main.rs": main,
             "Cargo.lock": open(os.path.join(harness, "Cargo.lock")).read()}
    for f, t in files.items():
        p = os.path.join(out, f)
        if f != "Cargo.lock" and os.path.exists(p) and open(p).read() == t:
            continue
        with open(p, "w") as h:
            h.write(t)
    return nfuns


if __name__ == "__main__":
    import sys
    generate(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], "/repo", "/verif/harness", len(sys.argv) > 4)
