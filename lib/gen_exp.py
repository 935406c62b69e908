"""C15: sources whose expansions are compared.

A program is a sequence of items, each in a module of its own between two marker constants, so that the expansion of one
item can be cut out of the expansion of any program that contains it.
"""
import random
import re

import gen_defs

NAMES = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]
LTS = ["'a", "'b", "'c", "'d", "'e", "'k", "'long_name", "'z"]
TYS = ["T", "U", "V", "W", "A", "B", "C", "Ty"]
CON = ["u8", "u16", "String", "Vec<u8>", "bool", "i64", "char", "()"]


def lifetimes(r, k):
    lts = r.sample(LTS, k)
    return lts, ", ".join(f"p{i}: &{l} {r.choice(['u8', 'str', '[u16]', 'String'])}" for i, l in enumerate(lts))


def m_lifetimes(r, k, recv="&self"):
    lts, ps = lifetimes(r, k)
    ret = r.choice(["", " -> u32", " -> &'static str"])
    return f"fn NAME<{', '.join(lts)}>({recv + ', ' if recv else ''}{ps}){ret}"


def m_generic(r, k, recv="&self"):
    ts = r.sample(TYS, k)
    style = r.random() < 0.5
    ds = [f"{t}: 'static + Clone" if not style else t for t in ts]
    w = " where " + ", ".join(f"{t}: Clone + 'static" for t in ts) if style else ""
    return f"fn NAME<{', '.join(ds)}>({recv + ', ' if recv else ''}{', '.join(f'x{i}: {t}' for i, t in enumerate(ts))}) -> {r.choice(ts)}{w}"


def m_both(r, k, recv="&self"):
    lts, ps = lifetimes(r, k)
    ts = r.sample(TYS, k)
    return (f"fn NAME<{', '.join(lts)}, {', '.join(t + ': ' + chr(39) + 'static' for t in ts)}>({recv + ', ' if recv else ''}{ps}, "
            f"{', '.join(f'x{i}: {t}' for i, t in enumerate(ts))})")


def m_dyn(r, k, recv="&self"):
    return f"fn NAME({recv + ', ' if recv else ''}{', '.join(f'x{i}: &dyn Tr{i % 3}' for i in range(k))}) -> u8"


def m_plain(r, k, recv="&self"):
    return f"fn NAME({recv + ', ' if recv else ''}{', '.join(f'{n}: {r.choice(CON)}' for n in r.sample(NAMES, k))}) -> {r.choice(CON)}"


def m_impl(r, k, recv="&self"):
    return f"fn NAME({recv + ', ' if recv else ''}{', '.join(f'{n}: &str' for n in r.sample(NAMES, k))}) -> impl Iterator<Item = u8> + Send"


def m_ret(r, k, recv="&self"):
    lts, ps = lifetimes(r, k)
    return f"fn NAME<{', '.join(lts)}>(&self, {ps}) -> &u32"


def m_concretize(r, k, recv="&self"):
    ts = r.sample(TYS, k)
    return (f"#[mockall::concretize] fn NAME<{', '.join(ts)}>({recv + ', ' if recv else ''}{', '.join(f'x{i}: {t}' for i, t in enumerate(ts))}) where "
            + ", ".join(f"{t}: Fn(u8) -> u{8 * 2 ** (i % 4)} + 'static" for i, t in enumerate(ts)))


MS = [m_lifetimes, m_lifetimes, m_generic, m_both, m_dyn, m_plain, m_impl, m_ret, m_concretize]
ATTRS = ["#[doc = \"x\"]", "#[cfg(all())]", "#[cfg(not(any()))]", "#[allow(dead_code)]", "#[allow(unused)]", "#[inline]", "#[doc(hidden)]"]


def methods(r, end, kinds=MS, vis="", attrs=True, body=False, statics=True):
    out = []
    for i in range(r.randint(2, 7)):
        f = r.choice(kinds)
        recv = "" if statics and f is not m_ret and r.random() < 0.3 else r.choice(["&self", "&mut self", "&self"])
        m = f(r, r.randint(2, 5), recv).replace("NAME", f"{r.choice(NAMES)}{i}")
        a = ""
        if "#[" in m:
            a, m = m.split("] ", 1)
            a += "] "
        if attrs:
            a += " ".join(r.sample(ATTRS, r.randint(0, 4))) + " "
        b = " { unimplemented!() }" if body and "impl Iter" not in m else " { std::iter::empty() }" if body else ";"
        out.append(f"{a}{vis}{m}{b}")
    return "\n".join(out)


def e_trait(r):
    k = r.randint(1, 5)
    ts = [f"A{i}" for i in range(k)]
    attr = "".join(f"type {t} = {r.choice(CON)};" for t in r.sample(ts, k))
    sup = " + ".join(r.sample(["Send", "Sync", "'static", "Sized"], r.randint(1, 3)))
    return (f"#[automock({attr})] pub trait Foo: {sup} {{ {' '.join(f'type {t}: Clone;' for t in ts)}\n"
            + methods(r, ";") + "\nfn assoc(&self, " + ", ".join(f"q{i}: Self::{t}" for i, t in enumerate(ts)) + ");\n}")


def e_generic_trait(r):
    k = r.randint(2, 4)
    ts = r.sample(["G", "H", "I", "J", "K"], k)
    w = ", ".join(f"{t}: Clone + 'static" for t in ts)
    if r.random() < 0.5:
        return f"#[automock] pub trait Foo<{w}> {{\n" + methods(r, ";", statics=False) + "\n}"
    return f"#[automock] pub trait Foo<{', '.join(ts)}> where {w} {{\n" + methods(r, ";") + "\n}"


def e_mock(r):
    k = r.randint(2, 5)
    trs = [f"Tra{i}" for i in range(k)]
    g = r.random() < 0.4
    t, u = ("<X: 'static, Y: 'static>", "<X, Y>") if g else ("", "")
    s = f"mock! {{ #[derive(Debug)] pub Bar{t} {{\n" + methods(r, ";", vis="pub ") + "\n}\n"
    pre = "pub trait Gen<X> { fn gen(&self, x: X); }\n"
    for x in trs:
        ms = methods(r, ";", attrs=r.random() < 0.5)
        pre += f"pub trait {x} {{ {re.sub('#.inline.', '', ms)} }}\n"
        s += f"impl{t} {x} for Bar{u} {{ {ms} }}\n"
    for c in CON[:r.randint(0, 3)]:
        s += f"impl{t} Gen<{c}> for Bar{u} {{ fn gen(&self, x: {c}); }}\n"
    return pre + s + "}"


def e_impl(r):
    return "pub struct Baz; #[automock] impl Baz {\n" + methods(r, "", vis="pub ", body=True) + "\n}"


def e_lifetimed(r):
    lts = r.sample(LTS, r.randint(2, 4))
    ts = r.sample(["G", "H", "I"], r.randint(0, 2))
    gs = ", ".join(lts + [f"{t}: 'static" for t in ts])
    us = ", ".join(lts + ts)
    return (f"pub trait Tra<'l> {{ fn t(&self, x: &'l u8); }} mock! {{ pub Lt<{gs}> {{\n fn m(&self, " + ", ".join(f"x{i}: &{l} u8" for i, l in enumerate(r.sample(lts, len(lts)))) + ");\n"
            + f" fn n<'q, 'r>(&self, y: &'q str, z: &'r str);\n }}\n impl<{gs}> Tra<{r.choice(lts)}> for Lt<{us}> {{ fn t(&self, x: &{r.choice(lts)} u8); }} }}")


def e_module(r):
    return "#[automock] pub mod ops {\nuse super::*;\n" + methods(r, "", vis="pub ", body=True, kinds=[m_lifetimes, m_generic, m_both, m_plain, m_dyn, m_concretize]).replace("&mut self, ", "").replace("&self, ", "").replace("&mut self", "").replace("&self", "") + "\npub const C: u8 = 1; pub type Al = u8;\n}"


def e_foreign(r):
    fs = "\n".join(f"pub {f}" for f in methods(r, ";", kinds=[m_plain], statics=False, attrs=False).replace("&mut self, ", "").replace("&self, ", "").split("\n"))
    return f"#[automock] pub mod ffi {{ use super::*; extern \"{r.choice(['C', 'system', 'C-unwind'])}\" {{\n{fs}\n}} }}"


KINDS = [e_trait, e_trait, e_generic_trait, e_mock, e_mock, e_impl, e_lifetimed, e_module, e_foreign]


def items(seed, n, plain):
    """[(key, text)]: `plain` items from gen_defs, n rich ones"""
    out = [(f"d{k}", text) for k, text, _, _ in gen_defs.items(seed, plain)]
    for k in range(n):
        r = random.Random(seed * 7919 + k)
        out.append((f"r{k}", KINDS[k % len(KINDS)](r)))
    return out


PRE = """pub mod pre {
pub use std::{future::Future, marker::PhantomData, pin::Pin, rc::Rc, sync::Arc};
pub use vh::defs::{*, Item as TestedItem};
pub trait Tr0 {} pub trait Tr1 {} pub trait Tr2 {}
}
#[allow(unused_imports)] use mockall::*;
use pre::*;"""


def program(its, salt):
    """Source of a crate with the given items (in that order), plus unrelated lines depending on `salt`"""
    r = random.Random(salt)
    s = ["#![allow(warnings)]", PRE]
    for n, (key, text) in enumerate(its):
        if salt:
            s.append("\n" * r.randint(0, 3) + r.choice(["", "", "pub struct Unrelated%d;" % n, "#[automock] pub trait Unrelated%d { fn foo<'a, 'b>(&self, x: &'a u8, y: &'b u8); }" % n,
                                                      "mock! { pub Unrelated%d { fn bar(&self); } }" % n, "#[automock] pub mod unrelated%d { pub fn baz() {} }" % n,
                                                      "pub fn unrelated%d() {}" % n]))
        s.append(f"pub mod it_{n} {{ pub const BEGIN: &str = \"{key}\"; use mockall::*; use super::*;\n{text}\npub const END: u8 = 0; }}")
    return "\n".join(s) + "\n"


def cut(expansion):
    """[(key, expansion of the item, with its white space normalised)]"""
    out = []
    for m in re.finditer(r'pub const BEGIN: &str = "(\w+)";(.*?)pub const END: u8 = 0;', expansion, re.S):
        out.append((m.group(1), re.sub(r"\s+", " ", m.group(2)).strip()))
    return out
