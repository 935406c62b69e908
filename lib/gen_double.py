"""C17: random use trees under #[double], in programs that report what each imported name resolves to."""
import random

TYPES = ["Foo", "Bar", "Baz", "A", "X9", "MockX", "Mock", "HTTP", "Ünit", "Service", "S_t", "É", "TRAIT_LIKE", "Zeta", "Inner", "FooBar", "Double", "B2"]
LOWERS = ["foo", "bar", "inner", "a", "x9", "mock_x", "mock", "r#type", "r#match", "fooBar", "service", "ünit", "zeta", "double", "b_2", "self_", "test", "real"]
RENAMES = ["Local", "local", "Foo", "foo", "MockFoo", "mock_foo", "R", "r#loop", "Other", "other", "Zz", "zz", "r#in", "Überall", "bar", "Bar", "Thing", "Mock", "mock", "Kk", "kk", "Last", "last"]


def mockname(n):
    raw = n.replace("r#", "")
    return ("Mock" if raw[0].isupper() else "mock_") + raw


class Ent:
    def __init__(self, path, kind, only, prog):
        self.path, self.kind, self.only = path, kind, only
        self.mock = path[:-1] + [mockname(path[-1])]
        self.crate = prog

    def ident(self, test):
        p = "::".join([self.crate] + (self.mock if test else self.path)).replace("r#", "")
        if self.kind in ("const", "static"):
            return p
        if self.kind == "trait" and not test:
            return "dyn " + p
        if self.kind == "autotrait" and not test:
            return "dyn " + p
        if self.kind in ("generic", "generic2"):
            return p + "<u8>"
        if self.kind in ("module", "automodule"):
            return p + "::marker"
        return p

    def expr(self, l):
        """(expression without cfg(test), with)"""
        if self.kind in ("const", "static"):
            return (f"{l}.to_string()",) * 2
        if self.kind in ("trait", "autotrait"):
            return f"std::any::type_name::<dyn {l}>().to_string()", f"std::any::type_name::<{l}>().to_string()"
        if self.kind in ("generic", "generic2"):
            return (f"std::any::type_name::<{l}<u8>>().to_string()",) * 2
        if self.kind in ("module", "automodule"):
            return (f"name_of(&{l}::marker)",) * 2
        if self.kind == "fn":
            return (f"name_of(&{l})",) * 2
        return (f"std::any::type_name::<{l}>().to_string()",) * 2

    def decl(self):
        n, m = self.path[-1], self.mock[-1]
        real = "#[cfg(not(test))] " if self.only else ""
        v = self.vis

        def one(name, isreal):
            k = self.kind
            if k == "struct":
                return f"{v}struct {name} {{ _x: u8 }}"
            if k == "unit":
                return f"{v}struct {name};"
            if k == "tuple":
                return f"{v}struct {name}(pub u8);"
            if k == "generic":
                return f"{v}struct {name}<T>(pub T);"
            if k == "generic2":
                return f"{v}enum {name}<T: Clone> where T: Send {{ Va(T) }}"
            if k == "enum":
                return f"{v}enum {name} {{ Va, Vb }}"
            if k == "union":
                return f"{v}union {name} {{ x: u8 }}"
            if k == "trait":
                return f"{v}trait {name} {{}}" if isreal else f"{v}struct {name};"
            if k == "fn":
                return f"{v}fn {name}() {{}}"
            if k in ("const", "static"):
                p = "::".join([self.crate] + self.path[:-1] + [name]).replace("r#", "")
                return f"{v}{k} {name}: &str = \"{p}\";"
            if k == "module":
                return f"{v}mod {name} {{ pub fn marker() {{}} pub struct Sub; pub struct MockSub; pub struct Foo; #[cfg(test)] pub struct MockFoo; }}"
            raise AssertionError(k)
        if self.kind == "autotrait":
            return f"#[cfg_attr(test, mockall::automock)] {v}trait {n} {{ fn m(&self); }}"
        if self.kind == "autostruct":
            return f"{v}struct {n}; #[cfg_attr(test, mockall::automock)] impl {n} {{ pub fn m(&self) {{}} }}"
        if self.kind == "automodule":
            return f"#[cfg_attr(test, mockall::automock)] {v}mod {n} {{ pub fn marker() {{}} }}"
        return f"{real}{one(n, True)}\n#[cfg(test)] {one(m, False)}"


class Gen:
    def __init__(self, seed, crate="prog"):
        self.r = random.Random(seed)
        self.crate = crate
        self.ents = []
        self.feats = set()
        self.expected = []  # (key, real, mock)

    def entities(self, path, n, local=False):
        r = self.r
        used = set()
        out = []
        for _ in range(n):
            lower = r.random() < 0.4
            name = r.choice(LOWERS if lower else TYPES)
            if name in used or mockname(name) in used or {mockname(u) for u in used} & {name}:
                continue
            kinds = ["fn", "module", "module", "automodule"] if lower else \
                ["struct", "unit", "tuple", "generic", "generic2", "enum", "union", "trait", "const", "static", "autotrait", "autostruct"]
            kind = r.choice(kinds)
            if kind.startswith("auto") and ("r#" in name or not name.isascii()):
                continue
            e = Ent(path + [name], kind, r.random() < 0.3, self.crate)
            e.vis = r.choice(["pub ", "pub ", "pub(crate) "])
            used |= {name, mockname(name)}
            out.append(e)
        return out

    def tree(self, path, depth):
        """A module with entities; returns its text"""
        es = self.entities(path, self.r.randint(2, 6))
        self.ents += es
        s = "\n".join(e.decl() for e in es)
        for i in range(self.r.randint(1, 2) if depth else 0):
            n = f"m{depth}{i}"
            s += f"\npub mod {n} {{\n{self.tree(path + [n], depth - 1)}\n}}"
        return s

    def use(self, parts):
        """Text of a use tree for [(segments, rename)]"""
        r = self.r
        if len(parts) == 1:
            segs, ren = parts[0]
            if segs[-1] == "self":
                self.feats.add("self in a group")
                return "::".join(segs[:-1]) + ("::{" if segs[:-1] else "") + "self" + (f" as {ren}" if ren else "") + ("}" if segs[:-1] else "")
            k = r.randint(0, len(segs) - 1) if r.random() < 0.25 else None
            t = "::".join(segs) + (f" as {ren}" if ren else "")
            if k is None:
                return t
            self.feats.add("single group")
            head = "".join(s + "::" for s in segs[:k])
            if k == 0 and len(segs) == 1 and not ren:
                return t
            return head + "{" + "::".join(segs[k:]) + (f" as {ren}" if ren else "") + r.choice(["", ","]) + "}"
        # a group, or a common head
        heads = {}
        for p in parts:
            heads.setdefault(p[0][0], []).append(p)
        if len(heads) == 1 and all(len(p[0]) > 1 for p in parts):
            h = next(iter(heads))
            return h + "::" + self.use([(p[0][1:], p[1]) for p in parts])
        self.feats.add("group")
        items = []
        for h, ps in heads.items():
            if len(ps) > 1 and all(len(p[0]) > 1 for p in ps) and r.random() < 0.7:
                self.feats.add("nested group")
                items.append(self.use(ps))
            else:
                items += [self.use([p]) for p in ps]
        r.shuffle(items)
        return "{" + ", ".join(items) + r.choice(["", ","]) + "}"

    def statement(self, k, depth, locals_, used, infn):
        """One doubled statement; returns (text, [(local name, entity)])"""
        r = self.r
        ent = r.sample(self.ents + locals_ * 2, min(len(self.ents), r.choice([1, 1, 1, 2, 3, 4, 6])))
        base = r.choice(["crate", "super", "me"])
        attrs = r.choice(["#[double]", "#[double]", "#[mockall_double::double]", "#[double()]", "#[allow(unused_imports)] #[double]", "#[double] #[allow(unused_imports)]",
                          "/// Documented\n#[double]", "#[double] #[cfg(all())]", "#[cfg(not(any()))] #[double]", "#[double] #[cfg_attr(all(), allow(unused_imports))]"])
        vis = "" if infn else r.choice(["", "", "pub(crate) ", "pub ", "pub(super) ", "pub(in crate) "])
        if vis == "pub " and any(e.vis != "pub " for e in ent):
            vis = "pub(crate) "

        def root(e):
            if e in locals_:
                rel = e.path[-2:]
                return r.choice([["self"] + rel, rel]) if not infn else ["self"] + rel
            b = {"crate": ["crate"], "super": ["super"] * depth, "me": []}[base]
            return b + e.path
        if base == "me" and any(e in locals_ for e in ent):
            base = "crate"
        # a type alias
        if len(ent) == 1 and ent[0].kind in ("struct", "unit", "tuple", "generic", "enum", "union", "autostruct") and r.random() < 0.4:
            e = ent[0]
            n = next((x for x in r.sample(RENAMES + TYPES, 12) if x not in used and mockname(x) not in used), None)
            if n is None:
                return None
            used.add(n)
            g = e.kind == "generic"
            p = ("::me::" if base == "me" else "") + "::".join(root(e))
            self.feats.add("generic type alias" if g else "type alias")
            a = attrs.replace("allow(unused_imports)", "allow(non_camel_case_types, dead_code)")
            if not g:
                return f"{a} {vis}type {n} = {p};", [(n, e)]
            b = r.choice(["T", "Q", "'q_never"][:2])
            return f"{a} {vis}type {n}<{b}> = {p}<{b}>;", [(n, e)]
        parts, outs = [], []
        for e in ent:
            name = e.path[-1]
            ren = None
            if name in used or r.random() < 0.4:
                ren = next((x for x in r.sample(RENAMES, 12) if x not in used), None)
                if ren is None:
                    continue
                self.feats.add("rename")
                if ren.replace("r#", "")[0].isupper() != name.replace("r#", "")[0].isupper():
                    self.feats.add("rename to other case")
            l = ren or name
            used.add(l)
            parts.append((root(e) + (["self"] if e.kind == "module" and r.random() < 0.4 else []), ren))
            outs.append((l, e))
            self.feats.add(e.kind)
            if e.kind == "module" and not e.only and r.random() < 0.5:
                sub = Ent(e.path + [r.choice(["Sub", "Foo"])], "struct", False, self.crate)
                ren = next((x for x in r.sample(RENAMES, 12) if x not in used), None)
                if ren:
                    used.add(ren)
                    parts.append((root(e) + [sub.path[-1]], ren))
                    outs.append((ren, sub))
                    sub.vis = e.vis
                    self.feats.add("item of a module that is itself mocked")
        if not parts:
            return None
        t = self.use(parts)
        if base == "me":
            t = "::me::" + t if len(parts) == 1 or not t.startswith("{") else "::me::" + t
            self.feats.add("leading colons")
        self.feats.add("visibility " + (vis.strip() or "private"))
        return f"{attrs} {vis}use {t};", outs

    def program(self, n):
        r = self.r
        s = ["#![allow(dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, uncommon_codepoints, unused_imports, unused_attributes, unused_doc_comments, private_interfaces)]",
             "extern crate self as me; use mockall_double::double; use std::collections::*;",
             "pub fn name_of<T>(_: &T) -> String { std::any::type_name::<T>().to_string() }",
             "fn show(k: &str, v: String) { println!(\"ID {} {}\", k, v.replace(\"r#\", \"\")); }"]
        s.append("pub mod w {\n" + self.tree(["w"], 3) + "\n}\npub mod m9 {\n" + self.tree(["m9"], 1) + "\n}")
        calls = []
        for k in range(n):
            depth = r.randint(1, 3)
            mods = [f"u{k}"] + [f"v{i}" for i in range(depth - 1)]
            infn = r.random() < 0.2
            used = {"loc", "double", "name_of", "show", "report"}
            locs = []
            body = ""
            if r.random() < 0.4:
                locs = self.entities(mods + ["loc"], 3)
                body = "pub mod loc {\n" + "\n".join(e.decl() for e in locs) + "\n}\n"
                self.feats.add("relative path")
            stmts, outs = [], []
            for _ in range(r.randint(1, 3)):
                st = self.statement(k, depth, locs, used, infn)
                if st:
                    stmts.append(st[0])
                    outs += [(l, e, st[0]) for l, e in st[1]]
            if r.random() < 0.2:
                # a rename within the module
                nm = next((x for x in ["Here", "Near", "Own"] if x not in used))
                stmts.append(f"#[double] use self::{nm} as Renamed{nm};" if r.random() < 0.5 else f"#[double] use {nm} as Renamed{nm};")
                if not infn:
                    e = Ent(mods + [nm], "struct", False, self.crate)
                    e.vis = "pub "
                    body += e.decl() + "\n"
                    outs.append((f"Renamed{nm}", e, stmts[-1]))
                    self.feats.add("rename in the same module")
                else:
                    stmts.pop()
            if r.random() < 0.15:
                stmts.append(r.choice(["#[cfg(any())] #[double] use nowhere::Foo;", "#[double] #[cfg(any())] use nowhere::{Foo, bar as Baz};"]))
                self.feats.add("false cfg")
            inner = []
            for l, e, t in outs:
                key = f"u{k}:{l}".replace("r#", "")
                a, b = e.expr(l)
                inner.append(f"#[cfg(not(test))] show(\"{key}\", {a}); #[cfg(test)] show(\"{key}\", {b});")
                self.expected.append((key, e.ident(False), e.ident(True), t))
                m = t.split("use ")[0].split("type ")[0]
                if not infn and ("pub(crate)" in m or "pub(in crate)" in m or m.endswith("pub ")) and e.vis == "pub ":
                    key = f"out{k}:{l}".replace("r#", "")
                    a, b = e.expr("crate::" + "::".join(mods) + "::" + l)
                    calls.append(f"#[cfg(not(test))] show(\"{key}\", {a}); #[cfg(test)] show(\"{key}\", {b});")
                    self.expected.append((key, e.ident(False), e.ident(True), t))
            if infn:
                self.feats.add("in a function")
                body += "pub fn report() {\n" + "\n".join(stmts + inner) + "\n}"
            else:
                body += "\n".join(stmts) + "\npub fn report() {\n" + "\n".join(inner) + "\n}"
            text = "use crate::{double, name_of, show};\n" + body
            for m in reversed(mods):
                text = f"pub mod {m} {{\n{text}\n}}"
            s.append(text)
            calls.insert(0, "::".join(mods) + "::report();")
        s.append("fn main() {\n" + "\n".join(calls) + "\n}\n#[test] fn all() { main() }\n")
        return "\n".join(s)


# refused under test (a silent pass would leave the real thing in place)
REFUSED = [
    ("glob", "mod foo { pub struct Bar; pub struct MockBar; } #[double] use foo::*;"),
    ("glob in a group", "mod foo { pub struct Bar; pub struct MockBar; pub mod baz {} } #[double] use foo::{Bar, baz::*};"),
    ("root glob", "mod foo { pub struct Bar; } #[double] use {foo::*};"),
    ("bare name", "extern crate self as me; #[double] use me;"),
    ("struct", "#[double] struct Foo {}"),
    ("function", "#[double] fn foo() {}"),
    ("module", "#[double] mod foo {}"),
    ("trait", "#[double] trait Foo {}"),
    ("impl", "struct Foo; #[double] impl Foo {}"),
    ("reference alias", "struct Foo; struct MockFoo; #[double] type Bar = &'static Foo;"),
    ("tuple alias", "struct Foo; struct MockFoo; #[double] type Bar = (Foo, Foo);"),
    ("private import used elsewhere", "mod x { use mockall_double::double; pub mod foo { pub struct Bar; pub struct MockBar; } #[double] use self::foo::Bar; } fn f(_: x::Bar) {}"),
    ("private alias used elsewhere", "mod x { use mockall_double::double; pub mod foo { pub struct Bar; pub struct MockBar; } #[double] type Y = self::foo::Bar; } fn f(_: x::Y) {}"),
    ("unused import with that lint denied", "pub mod x { use mockall_double::double; pub mod foo { pub struct Bar; pub struct MockBar; } #[double] #[deny(unused_imports)] use self::foo::Bar; }"),
    ("missing mock", "mod foo { pub struct Bar; } #[double] use foo::Bar;"),
    ("missing mock module", "mod foo { pub mod bar {} } #[double] use foo::bar;"),
    ("missing mock in a group", "mod foo { pub struct Bar; pub struct Baz; pub struct MockBar; } #[double] use foo::{Bar, Baz};"),
    ("missing aliased mock", "mod foo { pub struct Bar; } #[double] type X = foo::Bar;"),
    ("missing renamed mock", "mod foo { pub struct Bar; pub struct MockX; } #[double] use foo::Bar as X;"),
]
