"""C14 (and C15): random definitions from mockall's documented feature set, with tests of the mocks they yield."""
import os
import random
import re

import gen_special

RECV = {  # declaration, how to call on `mock`, first argument for UFCS, consumes?
    "ref": ("&self", "mock", "&mock", False),
    "mut": ("&mut self", "mock", "&mut mock", False),
    "lref": ("&'a self", "mock", "&mock", False),
    "val": ("self", "mock", "mock", True),
    "mutval": ("mut self", "mock", "mock", True),
    "box": ("self: Box<Self>", "Box::new(mock)", "Box::new(mock)", True),
    "rc": ("self: Rc<Self>", "Rc::new(mock)", "Rc::new(mock)", True),
    "arc": ("self: std::sync::Arc<Self>", "Arc::new(mock)", "Arc::new(mock)", True),
    "pinbox": ("self: Pin<Box<Self>>", "Box::pin(mock)", "Box::pin(mock)", True),
    "pinmut": ("self: Pin<&mut Self>", "Pin::new(&mut mock)", "Pin::new(&mut mock)", False),
    "refbox": ("self: &Box<Self>", "(&mock)", "&mock", False),
    "static": ("", None, None, False),
}
METHODS = ["foo", "bar", "get", "set", "push", "r#type", "r#match", "r#loop", "call", "returning", "matches", "times", "with",
           "lock", "deref", "len", "is_done", "verify", "in_sequence", "f", "x", "a", "foo_bar", "foo2", "_hidden",
           "next", "poll_it", "send", "r#move", "withf", "never", "once", "checkpoints", "context", "inner", "t", "read", "open"]
ARGS = ["x", "y", "z", "f", "g", "c", "e", "m", "v", "no_match_msg", "desc", "times", "rfunc", "matcher", "args", "this", "guard",
        "i", "p0", "context", "expectations", "r#in", "r#fn", "value", "n", "s", "_unused", "o", "self_", "key", "msg", "matched",
        "result", "k", "fun", "default", "arg0", "expectation", "l", "r#type", "d", "call", "obj"]
TPARAMS = ["T", "U", "V", "R", "F", "M", "E", "P", "Q", "S", "A", "B", "C", "Ty", "Out", "I", "Kk", "D", "O", "W"]
PATHB = ["super::Bound", "super::BoundT<super::Rich>", "crate::Bound", "self::Bound", "BoundT<Vec<super::Rich>>", "super::BoundT<u8> + Unpin"]
SIMPLE = ["u8", "u16", "u32", "i32", "i64", "u64", "usize", "bool", "char", "String", "Plain", "Rich", "f64", "u128", "()"]


class P:
    """A parameter.  ck(e, matcher) is the key expression in a callback"""

    def __init__(self, name, ty, setup, passed, want, ck, feat, mut=False):
        self.name, self.ty, self.setup, self.passed, self.want, self.ck, self.feat, self.mut = \
            name, ty, setup, passed, want, ck, feat, mut


class Ret:
    def __init__(self, ty, provide, check, feat, post=lambda c: c):
        self.ty, self.provide, self.check, self.feat, self.post = ty, provide, check, feat, post


class Item:
    def __init__(self, rnd, k):
        self.rnd, self.k = rnd, k
        self.feats = set()
        self.map = {}          # type parameters and associated types -> concrete
        self.tparams = []      # of the item
        self.assoc = []
        self.used = set()

    def sub(self, ty):
        for a, b in sorted(self.map.items(), key=lambda x: -len(x[0])):
            ty = ty.replace(a, b) if a.startswith("<") else re.sub(r"(?<![\w:])" + re.escape(a) + r"\b", b, ty)
        return ty

    def pick(self, names):
        n = self.rnd.choice([x for x in names if x not in self.used and x.replace("r#", "") not in self.used])
        self.used.add(n)
        return n

    def own(self, gens, depth=0, simple=False):
        r = self.rnd
        k = r.random()
        if gens and k < 0.35 and not simple:
            return r.choice(gens)
        if depth > 1 or k < 0.7:
            return r.choice(SIMPLE)
        a = self.own(gens, depth + 1, simple)
        return r.choice([f"Option<{a}>", f"Vec<{a}>", f"(u8, {a})", f"[{a}; 2]", f"Box<{a}>", f"Pair<{a}>", f"Pair<{a}, u16>", "Arr<3>",
                         f"std::vec::Vec<{a}>", f"::std::option::Option<{a}>", f"Result<{a}, Rich>", f"super::Pair<u8, {a}>", f"Arc<{a}>"])

    def concrete(self):
        return self.rnd.choice(["u8", "u32", "String", "Rich", "Plain", "Vec<u8>", "Option<u16>", "(u8, u8)", "i64", "Pair<u8>", "bool"])


def kmk(ty, x):
    return f"<{ty} as K>::mk({x})"


def param(g, i, gens, lifetimes, names, body):
    r = g.rnd
    avail = [n for n in ARGS if n not in names and n.replace("r#", "") not in names]
    name = r.choice(avail)
    names.add(name)
    v, x = f"v{i}", f"x[{i}]"
    mut = body and r.random() < 0.08
    forms = ["own"] * 8 + ["ref"] * 4 + ["refmut", "str", "slice", "slice", "dyn", "dynsend", "boxdyn", "static", "ptr", "optbox"]
    forms.append("fnptr")
    if lifetimes:
        forms += ["lt", "ltref", "ltopt", "ltwrap"] * 4
    f = r.choice(forms)
    ty = g.own(gens)
    c = g.sub(ty)
    if f == "own":
        return P(name, ty, f"let {v} = {kmk(c, x)};", v, kmk(c, x) + ".key()", lambda e, m: f"K::key({e})" if m else f"K::key(&{e})", "T", mut)
    if f == "ref":
        return P(name, f"&{ty}", f"let {v} = {kmk(c, x)};", "&" + v, kmk(c, x) + ".key()", lambda e, m: f"K::key({e})", "&T", mut)
    if f == "refmut":
        return P(name, f"&mut {ty}", f"let mut {v} = {kmk(c, x)};", "&mut " + v, kmk(c, x) + ".key()", lambda e, m: f"K::key({e})", "&mut T", mut)
    if f == "str":
        return P(name, "&str", f"let {v} = {x}.to_string();", "&" + v, x, lambda e, m: f"{e}.parse::<u64>().unwrap()", "&str", mut)
    if f == "strstr":
        return P(name, "&[&str]", f"let {v} = {x}.to_string();", f"&[&{v}, \"7\"]", x, lambda e, m: f"{e}[0].parse::<u64>().unwrap()", "&[&str]", mut)
    if f == "slice":
        return P(name, f"&[{ty}]", f"let {v} = {kmk(f'Vec<{c}>', x)};", "&" + v, kmk(f"Vec<{c}>", x) + ".key()",
                 lambda e, m: f"mix(&{e}.iter().map(K::key).collect::<Vec<u64>>())", "&[T]", mut)
    if f == "dyn":
        return P(name, "&dyn Kd", f"let {v} = {x};", "&" + v, x, lambda e, m: f"{e}.k()", "&dyn Trait", mut)
    if f == "dynsend":
        return P(name, "&(dyn Kd + Send)", f"let {v} = {x};", "&" + v, x, lambda e, m: f"{e}.k()", "&(dyn Trait + Send)", mut)
    if f == "boxdyn":
        return P(name, "Box<dyn Kd>", f"let {v} = {x};", f"Box::new({v})", x, lambda e, m: f"{e}.k()", "Box<dyn Trait>", mut)
    if f == "boxfn":
        return P(name, "Box<dyn Fn(u64) -> u64>", f"let {v} = {x};", f"Box::new(move |q| q ^ {v})", f"(5 ^ {x})", lambda e, m: f"{e}(5)", "Box<dyn Fn>", mut)
    if f == "fnptr":
        return P(name, "fn(u64) -> u64", f"let {v}: fn(u64) -> u64 = if {x} % 2 == 0 {{ twice }} else {{ thrice }};", v, f"(2 + {x} % 2)", lambda e, m: f"{e}(1)", "fn pointer", mut)
    if f == "reffn":
        return P(name, "&dyn Fn(u64) -> u64", f"let {v} = {x};", f"&|q| q ^ {v}", f"(5 ^ {x})", lambda e, m: f"{e}(5)", "&dyn Fn", mut)
    if f == "static":
        return P(name, f"&'static {ty}" if not re.search(r"\b(" + "|".join(gens or ["#"]) + r")\b", ty) else "&'static u8",
                 f"let {v} = leak({kmk(c if not re.search(chr(92) + 'b(' + '|'.join(gens or ['#']) + ')' + chr(92) + 'b', ty) else 'u8', x)});", v,
                 kmk(c if not re.search(r"\b(" + "|".join(gens or ["#"]) + r")\b", ty) else "u8", x) + ".key()", lambda e, m: f"K::key({e})", "&'static T", mut)
    if f == "ptr":
        return P(name, "*const u64", f"let {v} = leak({x});", v, x, lambda e, m: f"unsafe {{ {'**' if m else '*'}{e} }}", "*const T", mut)
    if f == "optbox":
        return P(name, "Option<Box<dyn Kd>>", f"let {v} = {x};", f"Some(Box::new({v}))", x, lambda e, m: f"{e}.as_ref().unwrap().k()", "Option<Box<dyn>>", mut)
    lt = r.choice(lifetimes)
    if f == "lt" or f == "ltwrap":
        w = "Lt<%s>" % lt if f == "lt" else "Option<Lt<%s>>" % lt
        return P(name, w, f"let {v} = {x};", f"Lt(&{v})" if f == "lt" else f"Some(Lt(&{v}))", x,
                 (lambda e, m: f"*{e}.0") if f == "lt" else (lambda e, m: f"*{e}.as_ref().unwrap().0"), "Type<'a>", mut)
    if f == "ltref":
        return P(name, f"&{lt} {SIMPLE[2]}", f"let {v} = {x} as u32;", "&" + v, f"({x} as u32 as u64)", lambda e, m: f"K::key({e})", "&'a T", mut)
    return P(name, f"Option<&{lt} u64>", f"let {v} = {x};", f"Some(&{v})", x, lambda e, m: f"*{e}.unwrap()", "Option<&'a T>", mut)


class Method:
    pass


def method(g, where, objsafe=False, name=None):
    """where: trait (no body), default (trait, with body), impl, mock, mockimpl, module"""
    r = g.rnd
    m = Method()
    body = where in ("default", "impl", "module")
    m.name = name or g.pick(METHODS)
    m.plain = m.name.replace("r#", "")
    m.where = where
    m.attrs = ["/// A method"]
    m.gens, m.lts, m.wheres, m.map = [], [], [], {}
    recvs = ["ref"] * 9 + ["mut"] * 5 + ["static"] * 3 + ["val", "box", "arc", "rc", "pinbox", "pinmut", "refbox"]
    if body:
        recvs.append("mutval")
    if objsafe:
        recvs = ["ref"] * 5 + ["mut"] * 4 + ["box"]
    if getattr(g, "nostatic", False):
        recvs = [x for x in recvs if x != "static"]
    m.recv = "static" if where == "module" else r.choice(recvs)
    ctor = m.recv == "static" and where != "module" and "new" not in g.used and r.random() < 0.4 and not objsafe
    if ctor:
        m.name = m.plain = "new"
        g.used.add("new")
        g.no_new = True
        g.feats.add("constructor")
    k = r.random()
    own_gens = []
    if not objsafe:
        if k < 0.25 and not (getattr(g, "nostatic", False) and g.tparams):
            for i in range(r.choice([1, 1, 1, 2, 3])):
                t = r.choice([t for t in TPARAMS if t not in g.map and t not in m.map])
                m.map[t] = g.concrete()
                bounds = ["'static"]
                if r.random() < 0.4:
                    bounds.insert(r.randint(0, 1), r.choice(["Bound", "BoundT<u8>", "Send", "Sync + Bound", "Sized", "Unpin"] + PATHB))
                if r.random() < 0.35:
                    m.gens.append(t)
                    m.wheres.append(f"{t}: {' + '.join(bounds)}")
                    g.feats.add("method where clause")
                else:
                    m.gens.append(f"{t}: {' + '.join(bounds)}")
                own_gens.append(t)
            g.feats.add("generic method")
        elif k < 0.4:
            m.lts = ["'a"] if r.random() < 0.6 else ["'a", "'b"]
            g.feats.add("method lifetimes")
    elif k < 0.2:
        m.lts = ["'a"]
    gens = own_gens + g.tparams + g.assoc
    names = set()
    saved = dict(g.map)
    g.map.update(m.map)
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 7])
    m.params = [param(g, i, gens, m.lts, names, body) for i in range(n)]
    # lifetimes must be used
    for lt in list(m.lts):
        if not any(lt + " " in p.ty or lt + ">" in p.ty for p in m.params):
            nm = r.choice([a for a in ARGS if a not in names and a.replace("r#", "") not in names])
            names.add(nm)
            i = len(m.params)
            v, x = f"v{i}", f"x[{i}]"
            m.params.append(P(nm, f"Lt<{lt}>", f"let {v} = {x};", f"Lt(&{v})", x, lambda e, mm: f"*{e}.0", "Type<'a>"))
    m.unsafe = r.random() < 0.06
    m.abi = '"C"' if r.random() < 0.04 and where != "module" and not own_gens else None
    m.is_async = False
    # ---- what it returns
    forms = ["own"] * 6 + ["unit"] * 3 + ["boxdyn", "static", "staticstr", "result", "ptrless"]
    if not objsafe and not m.lts and m.abi is None:
        forms += ["impl", "future", "async", "async", "implsend"]
    if m.recv in ("ref", "mut", "pinmut") and not m.lts:
        if m.recv != "pinmut":
            forms += ["ref", "ref", "str", "slice", "refdyn", "optref"] if m.recv == "ref" or True else []
        if m.recv == "mut":
            forms += ["refmut", "refmut", "slicemut", "refmutdyn"]
    if where in ("trait", "default", "impl", "mock", "mockimpl") and not objsafe and not m.lts and m.recv != "refbox":
        forms += ["self", "boxself", "optself"]
    if m.lts:
        forms += ["optstatic"]
    # elided output lifetimes are ambiguous for functions without self
    f = r.choice(forms)
    if ctor:
        f = "self" if m.lts else r.choice(["self", "self", "boxself", "optself"])
    if getattr(g, "nostatic", False) and g.tparams and f == "future":
        f = "own"
    if m.recv == "refbox" and f in ("impl", "future", "async", "implsend"):
        f = "own"
    ret_gens = g.tparams + own_gens + g.assoc
    ty = g.own(ret_gens)
    c = g.sub(ty)
    xs = f"mix(&[{', '.join([p.want for p in m.params] + ['7'])}])"

    def h(ckeys):
        return f"mix(&[{', '.join(ckeys + ['7'])}])"
    m.get = "got"
    m.ref = False
    if f in ("own", "result", "ptrless"):
        m.ret = f" -> {ty}"
        m.provide = lambda k: ("returning", kmk(c, h(k)))
        m.check = f"same!(got.key(), {kmk(c, xs)}.key(), \"returned\");"
    elif f == "unit":
        m.ret = r.choice(["", "", " -> ()"])
        m.provide = lambda k: ("returning", "()")
        m.check = "let () = got;"
    elif f == "boxdyn":
        m.ret = " -> Box<dyn Kd>"
        m.provide = lambda k: ("returning", f"Box::new({h(k)})")
        m.check = f"same!(got.k(), {xs}, \"returned\");"
    elif f == "static":
        m.ret = " -> &'static Rich"
        m.provide = lambda k: ("returning", f"leak({kmk('Rich', h(k))})")
        m.check = f"same!(got.v, {xs}, \"returned\");"
    elif f == "staticstr":
        m.ret = " -> &'static str"
        m.provide = lambda k: ("returning", f"leak({h(k)}.to_string())")
        m.check = f"same!(got, {xs}.to_string(), \"returned\");"
    elif f == "optstatic":
        m.ret = " -> Option<&'static str>"
        m.provide = lambda k: ("returning", f"Some(leak({h(k)}.to_string()))")
        m.check = f"same!(got.unwrap(), {xs}.to_string(), \"returned\");"
    elif f in ("impl", "implsend"):
        m.ret = " -> impl Kd" + (" + Send" if f == "implsend" else "")
        m.provide = lambda k: ("returning", f"Box::new({h(k)})")
        m.check = f"same!(got.k(), {xs}, \"returned\");"
        m.body = "0u64"
    elif f == "future":
        send = r.random() < 0.4
        m.ret = f" -> impl {r.choice(['Future', 'std::future::Future'])}<Output = {ty}>" + (" + Send" if send and c != "Plain" else "")
        m.provide = lambda k: ("returning", f"Box::pin(futures::future::ready({kmk(c, h(k))}))")
        m.check = f"same!(block_on(got).key(), {kmk(c, xs)}.key(), \"returned\");"
        m.body = f"async {{ unimplemented!() }}"
    elif f == "async":
        m.is_async = True
        m.ret = f" -> {ty}"
        m.provide = lambda k: ("returning", kmk(c, h(k)))
        m.check = f"same!(got.key(), {kmk(c, xs)}.key(), \"returned\");"
        m.get = "block_on(got)"
    elif f in ("ref", "str", "slice", "refdyn", "refmut", "slicemut", "refmutdyn"):
        m.ref = True
        mu = "mut " if "mut" in f else ""
        t, own, chk = {
            "ref": ("Rich", "Rich { v: WANT }", "got.v"), "refmut": ("Rich", "Rich { v: WANT }", "got.v"),
            "str": ("str", "WANT.to_string()", "got.parse::<u64>().unwrap()"),
            "slice": ("[u64]", "vec![WANT]", "got[0]"), "slicemut": ("[u64]", "vec![WANT]", "got[0]"),
            "refdyn": ("dyn Kd", "Box::new(WANT) as Box<dyn Kd>", "got.k()"), "refmutdyn": ("dyn Kd", "Box::new(WANT) as Box<dyn Kd>", "got.k()"),
        }[f]
        if t in ("Rich", "[u64]") and r.random() < 0.3:
            g.feats.add("returns a reference to a path")
            pre = r.choice(["super::", "crate::", "self::"])
            if t == "Rich":
                t = pre + t
            else:
                t, own, chk = f"[{pre}Rich]", "vec![Rich { v: WANT }]", "got[0].v"
        m.ret = f" -> &{mu}{t}"
        m.provide = lambda k: ("return_var" if mu else "return_const", own.replace("WANT", "want2"))
        m.check = f"same!({chk}, {xs}, \"returned\");"
    elif f == "optref":
        m.ret = " -> Option<&'static Rich>"
        m.provide = lambda k: ("returning", f"Some(leak({kmk('Rich', h(k))}))")
        m.check = f"same!(got.unwrap().v, {xs}, \"returned\");"
    elif f in ("self", "boxself", "optself"):
        w = {"self": "Self", "boxself": "Box<Self>", "optself": "Option<Self>"}[f]
        m.ret = f" -> {w}"
        m.provide = lambda k: ("returning", {"self": "%s", "boxself": "Box::new(%s)", "optself": "Some(%s)"}[f] % "DEFAULT")
        m.check = {"self": "drop(got);", "boxself": "drop(*got);", "optself": "ensure!(got.is_some(), \"nothing returned\");"}[f]
    if m.ref and any("&" in p.ty or "Lt" in p.ty or p.ty.startswith("&") for p in m.params) and m.recv == "static":
        raise AssertionError
    if m.recv in ("val", "mutval") and where == "default":
        m.wheres.append("Self: Sized")
    elif f in ("self", "optself") and where in ("trait", "default", "mockimpl", "impl"):
        m.wheres.append("Self: Sized")
    g.feats |= {f"returns {f}", f"receiver {m.recv}"} | {p.feat for p in m.params}
    if m.unsafe:
        g.feats.add("unsafe method")
        m.attrs.append("/// # Safety\n    /// Really")
    if m.abi:
        g.feats.add("method ABI")
    if not objsafe and r.random() < 0.08 and where in ("trait", "default") and "Self: Sized" not in m.wheres:
        m.wheres.append("Self: Sized")
        g.feats.add("where Self: Sized")
    # ---- attributes
    k = r.random()
    if k < 0.06 and not m.is_async and m.ret.strip() not in ("", "-> ()"):
        m.attrs.append("#[must_use]")
        g.feats.add("must_use")
    elif k < 0.10:
        m.attrs.append("#[cfg(all())]")
        g.feats.add("true cfg")
    elif k < 0.13:
        m.attrs.append("#[cfg_attr(all(), allow(unused_mut))]")
        g.feats.add("cfg_attr")
    elif k < 0.16:
        m.attrs.append("#[cfg_attr(any(), nonsense)]")
        g.feats.add("cfg_attr")
    elif k < 0.19:
        m.attrs.append("#[allow(unused_variables, clippy::all)]")
    elif k < 0.22:
        m.attrs.append("#[inline]" if body else "#[allow(unused_mut)]")
    if r.random() < 0.1:
        m.attrs.insert(0, "/** Block comment */")
    m.c, m.xs, m.f, m.h = c, xs, f, h
    m.concretes = [m.map[t] for t in own_gens]
    m.maps = dict(g.map)
    g.map = saved
    return m


def sig(m, mapf=lambda s: s, muts=True):
    g = (m.lts + m.gens)
    gen = f"<{', '.join(g)}>" if g else ""
    ps = [RECV[m.recv][0]] if m.recv != "static" else []
    ps += [f"{'mut ' if p.mut and muts else ''}{p.name}: {p.ty}" for p in m.params]
    w = f" where {', '.join(m.wheres)}" if m.wheres else ""
    q = ("async " if m.is_async else "") + ("unsafe " if m.unsafe else "") + (f"extern {m.abi} " if m.abi else "")
    return f"{q}fn {m.name}{gen}({', '.join(ps)}){m.ret}{w}"


def decl(m, vis=""):
    a = "\n    ".join(m.attrs)
    b = ";"
    me = "let _ = &mut self; " if m.recv == "mutval" else ""
    if m.where in ("default", "impl", "module"):
        b = f" {{ {me}let _ = ({''.join(('&mut ' if p.mut else '&') + p.name + ',' for p in m.params)}); {getattr(m, 'body', 'unimplemented!()')} }}"
    return f"    {a}\n    {vis}{sig(m)}{b}"


def make(g, mock):
    return default_of(mock) if getattr(g, "no_new", False) else f"<{mock}>::new()"


ABSENT = ["#[cfg(any())]", "#[cfg(not(all()))]", "#[cfg(target_os = \"none\")]", "#[cfg(feature = \"absent\")]"]


def absent(g, ms, vis="", body=False):
    """A declaration that is configured out, possibly an alternative to another one"""
    r = g.rnd
    if r.random() > 0.25:
        return []
    other = [m for m in ms if m.where != "trait" or True]
    name = r.choice(other).name if other and r.random() < 0.6 else g.pick(METHODS)
    recv = "" if body == "module" else r.choice(["&self, ", "&mut self, ", "" if not getattr(g, "nostatic", False) else "&self, "])
    g.feats.add("false cfg")
    c = r.choice(ABSENT)
    a = [f"    {c}", "    /// Absent"]
    r.shuffle(a)
    gen = r.choice(["", "<Zz: NoSuchTrait + 'static>"])
    return ["\n".join(a) + f"\n    {vis}fn {name}{gen}({recv}zz: NoSuchType) -> Missing{' { unknown() }' if body else ';'}"]


def shuffled(g, ds):
    g.rnd.shuffle(ds)
    return ds


def default_of(mock):
    return f"<{mock} as Default>::default()"


def test(g, m, mock, mockname, trait=None, dyn=False, module=None, expect_prefix="expect_"):
    """Statements that test one method"""
    r = g.rnd
    n = len(m.params)
    a = [f"a{i}" for i in range(n)]
    # with lifetimes in argument types, matchers receive them by reference all the same
    ckm = [p.ck(x, True) for p, x in zip(m.params, a)]
    ckr = [p.ck(x, False) for p, x in zip(m.params, a)]
    want = f"mix(&[{', '.join([p.want for p in m.params] + ['3'])}])"
    fish = f"::<{', '.join(m.concretes)}>" if m.concretes else ""
    kind, val = m.provide(ckr)
    val = val.replace("DEFAULT", default_of(mock))
    setup = " ".join(p.setup for p in m.params)
    args = ", ".join(p.passed for p in m.params)
    decl_, on, first, consumes = RECV[m.recv]
    if m.recv == "static":
        cx = f"mock_{module}::{m.plain}_context()" if module else f"<{mock}>::{m.plain}_context()"
        pre = f"let cx = {cx}; "
        ex = f"cx.expect{fish}()"
        post = "cx.checkpoint();"
        if module:
            callee = f"mock_{module}::{m.name}{fish}({args})"
        elif trait:
            callee = f"<{mock} as {trait}>::{m.name}{fish}({args})"
        else:
            callee = f"<{mock}>::{m.name}{fish}({args})"
        new = ""
    else:
        boxed = m.recv == "refbox"
        new = f"let mut mock = {'Box::new(' if boxed else ''}{r.choice([f'<{mock}>::new()', default_of(mock)]) if not getattr(g, 'no_new', False) else default_of(mock)}{')' if boxed else ''}; "
        pre = ""
        ex = f"mock.{expect_prefix}{m.plain}{fish}()"
        post = "" if consumes else "mock.checkpoint();"
        k = r.random()
        if trait and (k < 0.5 or getattr(g, "ambiguous", False)):
            callee = f"<{mock} as {trait}>::{m.name}{fish}({', '.join([first] + [p.passed for p in m.params])})"
        elif trait and dyn and k < 0.8 and m.recv in ("ref", "mut", "box"):
            callee = {"ref": f"(&mock as &dyn {g.dyn})", "mut": f"(&mut mock as &mut dyn {g.dyn})", "box": f"(Box::new(mock) as Box<dyn {g.dyn}>)"}[m.recv] + f".{m.name}({args})"
        else:
            callee = f"{on}.{m.name}{fish}({args})"
    if m.unsafe:
        callee = f"unsafe {{ {callee} }}"
    if m.get != "got":
        callee = m.get.replace("got", callee)
    times = r.choice(["times(1)", "once()", "times(1..=3)", "times(1..)"])
    wf = f".withf(move |{', '.join(a)}| mix(&[{', '.join(ckm + ['3'])}]) == want)" if n else ""
    if kind == "returning":
        rv = f".{r.choice(['returning', 'returning', 'return_once'])}(move |{', '.join(a)}| {{ {'let _ = (' + ''.join('&' + x + ',' for x in a) + '); ' if n else ''}{val} }})"
    else:
        rv = f".{kind}({val})"
    want2 = f"let want2 = {m.xs};" if m.ref else ""
    refused = ""
    if m.abi is None and r.random() < 0.5:
        owner = f"mock_{module}" if module else mockname
        refused = (f"{{ {new.replace('let mut mock', 'let mut mock' if 'mut' in m.recv else 'let mock')}let e = run(|| {{ {setup} let _ = {callee}; 0 }}); "
                   f"refused(e, \"{owner}\", \"{m.plain}\")?; }}")
    return f"""
        {{ // {m.plain}
            m.count("methods_tested");
            let x: Vec<u64> = (0..{max(n, 1)}).map(|_| r.next() >> 8).collect();
            let _ = &x;
            let want = {want};
            let _ = want;
            {want2}
            {pre}{new}{ex}.{times}{wf}{rv};
            {setup}
            let got = {callee};
            {m.check}
            {post}
            {refused}
        }}"""


def generics(g, n, static, where_ok=True, names=None):
    """Type parameters of an item: (declaration, where clause, arguments)"""
    r = g.rnd
    ds, ws = [], []
    for _ in range(n):
        t = r.choice([t for t in TPARAMS if t not in g.map])
        g.map[t] = g.concrete()
        g.tparams.append(t)
        b = ["'static"] if static or r.random() < 0.5 else []
        if r.random() < 0.4:
            b.append(r.choice(["Bound", "BoundT<u8>", "Sized", "Bound + Unpin", "BoundT<str>"] + PATHB))
        if b and where_ok and r.random() < 0.3:
            ws.append(f"{t}: {' + '.join(b)}")
            ds.append(t)
        else:
            ds.append(t + (": " + " + ".join(b) if b else ""))
    if n:
        g.feats.add("item type parameters")
    if ws:
        g.feats.add("item where clause")
    return ds, ws


def angle(xs):
    return f"<{', '.join(xs)}>" if xs else ""


def item_trait(g):
    """#[automock] on a trait"""
    r = g.rnd
    obj = r.random() < 0.4
    g.nostatic = r.random() < 0.4
    ds, ws = generics(g, r.choice([0, 0, 0, 1, 1, 2]), not g.nostatic)
    name = r.choice(["Foo", "Service", "Db", "TraitX", "AA", "HttpClient2", "r#Foo"[2:]])
    tail = []
    opts = []
    body = []
    if r.random() < 0.3:
        for i in range(r.choice([1, 2])):
            an = ["Item", "Output", "Error"][i + r.randint(0, 1)] if i == 0 else "Extra"
            conc = g.concrete()
            g.map[f"Self::{an}"] = conc
            g.assoc.append(f"Self::{an}")
            opts.append(f"type {an}={conc};")
            body.append(f"    /// Associated\n    type {an}{r.choice(['', ': Bound', ': Sized + Bound'])};")
            g.feats.add("associated type")
            tail.append(f"{an} = {conc}")
    supers = "" if g.nostatic and ds else r.choice(["", "", "", ": Send", ": Sized", ": Sync + Send", ": 'static"]) if not ds else r.choice(["", ": 'static"])
    if obj and "Sized" in supers:
        supers = ""
    unsafe = r.random() < 0.08
    ms = [method(g, r.choice(["trait", "trait", "default"]), obj) for _ in range(r.choice([1, 2, 3, 3, 4, 6]))]
    if any(m.f in ("future", "impl", "implsend") and m.where == "default" for m in ms):
        pass
    body += shuffled(g, [decl(m) for m in ms] + absent(g, ms))
    w = f" where {', '.join(ws)}" if ws else ""
    conc = [g.map[t] for t in g.tparams]
    attr = f"#[automock({' '.join(opts)})]" if opts else r.choice(["#[automock]", "#[automock]", "#[mockall::automock]", "#[automock()]"])
    vis = r.choice(["pub ", "pub ", "pub(crate) ", ""])
    text = f"/// A trait\n#[allow(dead_code)]\n{attr}\n{vis}{'unsafe ' if unsafe else ''}trait {name}{angle(ds)}{supers}{w} {{\n" + "\n".join(body) + "\n}\n"
    mock = f"Mock{name}{angle(conc)}"
    trait = f"{name}{angle(conc)}"
    g.dyn = f"{name}{angle(conc + tail)}"
    g.feats |= {"automock trait"} | ({"unsafe trait"} if unsafe else set()) | ({"supertrait"} if supers else set()) | ({"object safe"} if obj else set())
    bound = f"{name}{angle(conc + tail)}"
    static = f"fn is<X: {bound}>() {{}} is::<{mock}>();"
    static += f" let _: &dyn {g.dyn} = &{make(g, mock)};" if obj else ""
    return text, static + debug(g, mock, f"Mock{name}") + "".join(test(g, m, mock, f"Mock{name}", trait, obj) for m in ms)


def debug(g, mock, name):
    return f"""
        {{
            let mut mock = {make(g, mock)};
            let s = format!("{{:?}}", mock);
            ensure!(s.contains("{name}"), "Debug shows {{s:?}}, not {name}");
            mock.checkpoint();
            let _: {mock} = Default::default();
        }}"""


def item_impl(g):
    """#[automock] on an inherent impl"""
    r = g.rnd
    g.nostatic = r.random() < 0.4
    ds, ws = generics(g, r.choice([0, 0, 1, 1, 2]), not g.nostatic)
    name = r.choice(["Foo", "Thing", "Conn", "Xy"])
    vis = r.choice(["pub ", "pub ", "pub(crate) "])
    ms = [method(g, "impl") for _ in range(r.choice([1, 2, 3, 4, 5]))]
    w = f" where {', '.join(ws)}" if ws else ""
    conc = [g.map[t] for t in g.tparams]
    ph = ", ".join(g.tparams)
    bare = [d.split(":")[0] for d in ds]
    decls = []
    for m in ms:
        m.vis = r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""])
        if not m.vis.startswith("pub ") or not vis.startswith("pub "):
            m.attrs.append("#[allow(dead_code)]")
        decls.append(decl(m, m.vis))
    decls = shuffled(g, decls + absent(g, ms, "pub ", True))
    consts = ""
    if r.random() < 0.2:
        consts = "    /// A constant\n    #[allow(dead_code)]\n    pub const LIMIT: u16 = 77;\n"
        g.feats.add("inherent constant")
    text = f"/// A struct\n#[allow(dead_code)]\n{vis}struct {name}{angle(bare)}(PhantomData<({ph + (',' if ph else '')})>);\n#[automock]\n#[allow(dead_code)]\nimpl{angle(ds)} {name}{angle(g.tparams)}{w} {{\n{consts}" + "\n".join(decls) + "\n}\n"
    mock = f"Mock{name}{angle(conc)}"
    g.feats.add("automock impl")
    st = f"same!(<{mock}>::LIMIT, 77u16, \"constant\");" if consts else ""
    return text, st + debug(g, mock, f"Mock{name}") + "".join(test(g, m, mock, f"Mock{name}") for m in ms)


def item_impl_trait(g):
    """#[automock] on `impl Trait for Struct`"""
    r = g.rnd
    ds, ws = generics(g, r.choice([0, 0, 1]), True, where_ok=False)
    name = r.choice(["Foo", "Thing", "Conn"])
    tr = r.choice(["Greet", "Tr", "Source"])
    ms = [method(g, "impl") for _ in range(r.choice([1, 2, 3]))]
    for m in ms:
        m.attrs = [a for a in m.attrs if not a.startswith("#[inline") and not a.startswith("#[deprecated") and not a.startswith("#[must_use")]
    conc = [g.map[t] for t in g.tparams]
    at = ""
    asst = ""
    if r.random() < 0.3:
        asst = "    /// Associated\n    type Item;\n"
        at = "    type Item = u16;\n"
        g.feats.add("associated type in impl")
    tds = angle(ds)
    text = (f"/// A trait\n#[allow(dead_code)]\npub trait {tr}{tds} {{\n{asst}" +
            "\n".join(f"    /// A method\n    {sig(m, muts=False).replace('mut self', 'self') if m.recv == 'mutval' else sig(m, muts=False)};" for m in ms) + "\n}\n"
            f"/// A struct\npub struct {name}{angle([d.split(':')[0] for d in ds])}(PhantomData<({''.join(t + ',' for t in g.tparams)})>);\n#[automock]\nimpl{tds} {tr}{angle(g.tparams)} for {name}{angle(g.tparams)} {{\n{at}" +
            "\n".join(shuffled(g, [decl(m) for m in ms] + absent(g, ms, "", True))) + "\n}\n")
    mock = f"Mock{name}{angle(conc)}"
    g.feats.add("automock impl Trait for Struct")
    return text, debug(g, mock, f"Mock{name}") + "".join(test(g, m, mock, f"Mock{name}", f"{tr}{angle(conc)}") for m in ms)


def item_mock(g):
    """mock!"""
    r = g.rnd
    ds, ws = generics(g, r.choice([0, 0, 0, 1, 1, 2]), True, where_ok=False)
    name = r.choice(["Foo", "Thing", "Multi", "Z9"])
    vis = r.choice(["pub ", "pub ", "pub(crate) ", ""])
    conc = [g.map[t] for t in g.tparams]
    mock = f"Mock{name}{angle(conc)}"
    inh = [method(g, "mock") for _ in range(r.choice([0, 1, 2, 3]))]
    decls = []
    for m in inh:
        v = r.choice(["pub ", "", "pub(crate) "])
        if not v.startswith("pub ") or not vis.startswith("pub "):
            m.attrs.append("#[allow(dead_code)]")
        decls.append(decl(m, v))
    decls = shuffled(g, decls + absent(g, inh, "pub "))
    traits, impls, tests = [], [], []
    derive = r.random() < 0.5
    for i in range(r.choice([0, 1, 1, 2, 3])):
        tr = ["Alpha", "Beta", "Gamma"][i]
        saved, savedp, saveda = dict(g.map), list(g.tparams), list(g.assoc)
        tds, targs, tconc = [], [], []
        kind = r.random()
        if kind < 0.3 and not ds:
            # a generic trait, implemented for a concrete type
            tds, targs, tconc = ["Xx"], ["u16"], ["u16"]
            g.map["Xx"] = "u16"
            use = ["Xx"]
            g.feats.add("specific generic trait impl")
        elif kind < 0.7 and ds:
            tds, targs, tconc = list(ds), list(g.tparams), list(conc)
            use = list(g.tparams)
            g.feats.add("generic trait impl on generic mock")
        else:
            use = []
        keep = g.tparams
        g.tparams = use
        asst = at = ""
        if r.random() < 0.3:
            an = "Item"
            c = g.concrete()
            an2 = f"<Self as {tr}{angle(tds and use)}>::{an}"
            g.map[an2] = c
            g.assoc = [an2]
            asst, at = f"    /// Associated\n    type {an}{r.choice(['', ': Bound'])};\n", f"        type {an} = {c};\n"
            g.feats.add("associated type in mock!")
        else:
            g.assoc = []
        if r.random() < 0.15:
            asst += "    /// Constant\n    const LIMIT: u8;\n"
            at += "        const LIMIT: u8 = 9;\n"
            g.feats.add("associated constant")
            tests.append(f"same!(<{mock} as {tr}{angle(tconc)}>::LIMIT, 9u8, \"constant\");")
        ms = [method(g, "mockimpl") for _ in range(r.choice([0, 1, 2, 3]))]
        for m in ms:
            m.attrs = [a for a in m.attrs if not a.startswith(("#[inline", "#[deprecated", "#[must_use"))]
        traits.append(f"/// A trait\n#[allow(dead_code)]\npub trait {tr}{angle(tds)} {{\n{asst}" + "\n".join(f"    /// A method\n    {sig(m)};" for m in ms) + "\n}\n")

        def conv(s):
            return re.sub(r"\bXx\b", "u16", s)
        idecl = "\n".join("    " + conv(d).replace("\n", "\n    ") for d in shuffled(g, [decl(m) for m in ms] + absent(g, ms)))
        impls.append(f"    impl{angle(ds)} {tr}{angle(targs)} for {name}{angle(keep)} {{\n{at}{idecl}\n    }}")
        g.tparams = keep
        for m in ms:
            tests.append((m, f"{tr}{angle(tconc)}"))
        g.tests_map = None
        g.map = saved
        g.tparams = savedp
        g.assoc = saveda
    if r.random() < 0.25 and not ds:
        impls.append("    impl Clone for %s { fn clone(&self) -> Self; }" % name)
        tests.append("""
        { let mut mock = <%s>::default(); mock.expect_clone().times(1).returning(|| <%s>::default()); let _ = mock.clone(); }""" % (mock, mock))
        g.feats.add("impl Clone")
    if r.random() < 0.15 and not ds:
        impls.append("    impl Drop for %s { fn drop(&mut self); }" % name) if False else None
    r.shuffle(impls)
    text = "".join(traits) + "mock! {\n    /// A mock\n" + ("    #[derive(Debug)]\n" if derive else "") + f"    {vis}{name}{angle(ds)} {{\n" + \
        "\n".join("    " + d.replace("\n", "\n    ") for d in decls) + "\n    }\n" + "\n".join(impls) + "\n}\n"
    g.feats.add("mock!")
    body = debug(g, mock, f"Mock{name}") if derive else f"\n        {{ let mut mock = {make(g, mock)}; mock.checkpoint(); let _: {mock} = Default::default(); }}"
    body += "".join(test(g, m, mock, f"Mock{name}") for m in inh)
    body += "".join(t if isinstance(t, str) else test(g, t[0], mock, f"Mock{name}", t[1]) for t in tests)
    return text, body


def item_module(g):
    r = g.rnd
    name = r.choice(["inner", "api", "r_mod", "m2"])
    ms = [method(g, "module") for _ in range(r.choice([1, 2, 3, 5]))]
    ds = []
    for m in ms:
        v = r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) "])
        if v != "pub ":
            m.attrs.append("#[allow(dead_code)]")
        ds.append(decl(m, v))
    ds = shuffled(g, ds + absent(g, ms, "pub ", "module"))
    extra = r.choice(["", "    /// Alias\n    pub type Alias = u32;\n", "    /// Constant\n    pub const LIMIT: u32 = 5;\n"])
    text = f"/// A module\n#[automock]\npub mod {name} {{\n    #[allow(unused_imports)]\n    use super::*;\n{extra}" + "\n".join(ds) + "\n}\n"
    g.feats.add("automock module")
    t = f"same!(mock_{name}::LIMIT, 5u32, \"constant\");" if "LIMIT" in extra else ""
    return text, t + "".join(test(g, m, None, None, module=name) for m in ms) + f"\n        mock_{name}::checkpoint();"


STD = [  # trait, name that generated methods have, items, test
    ("Iterator", "next", "type Item = u32; fn next(&mut self) -> Option<u32>;",
     "let mut n = x as u32; mock.expect_next().times(3).returning(move || { n = n.wrapping_add(1); Some(n) }); same!(mock.by_ref().take(3).collect::<Vec<u32>>(), vec![(x as u32).wrapping_add(1), (x as u32).wrapping_add(2), (x as u32).wrapping_add(3)], \"items\");"),
    ("Iterator", "next", "type Item = u32; fn next(&mut self) -> Option<<Self as Iterator>::Item>;",
     "mock.expect_next().times(1).return_const(Some(x as u32)); same!(Iterator::next(&mut mock), Some(x as u32), \"item\");"),
    ("std::fmt::Display", "fmt", "fn fmt<'a>(&self, f: &mut std::fmt::Formatter<'a>) -> std::fmt::Result;",
     "mock.expect_fmt().times(1).returning(move |f| write!(f, \"{x}\")); same!(format!(\"{mock:>5}\"), format!(\"{x}\"), \"display\");"),
    ("std::fmt::Debug", "fmt", "fn fmt<'a>(&self, f: &mut std::fmt::Formatter<'a>) -> Result<(), std::fmt::Error>;",
     "mock.expect_fmt().times(1).returning(move |f| write!(f, \"{x}\")); same!(format!(\"{mock:?}\"), format!(\"{x}\"), \"debug\");"),
    ("AsRef<str>", "as_ref", "fn as_ref(&self) -> &str;", "mock.expect_as_ref().times(1).return_const(x.to_string()); same!(AsRef::<str>::as_ref(&mock), x.to_string(), \"as_ref\");"),
    ("AsMut<u64>", "as_mut", "fn as_mut(&mut self) -> &mut u64;", "mock.expect_as_mut().times(2).return_var(x); *mock.as_mut() ^= 1; same!(*mock.as_mut(), x ^ 1, \"as_mut\");"),
    ("std::ops::Deref", "deref", "type Target = u64; fn deref(&self) -> &u64;", "mock.expect_deref().times(1).return_const(x); same!(*mock, x, \"deref\");"),
    ("std::io::Write", "write", "fn write(&mut self, buf: &[u8]) -> std::io::Result<usize>; fn flush(&mut self) -> std::io::Result<()>;",
     "mock.expect_write().times(1).withf(move |b| b == x.to_string().as_bytes()).returning(|b| Ok(b.len())); mock.expect_flush().times(1).returning(|| Ok(())); use std::io::Write as _; mock.write_all(x.to_string().as_bytes()).unwrap(); mock.flush().unwrap();"),
    ("std::io::Read", "read", "fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize>;",
     "mock.expect_read().times(1).returning(move |b| { b[0] = x as u8; Ok(1) }); let mut b = [0; 1]; std::io::Read::read_exact(&mut mock, &mut b).unwrap(); same!(b[0], x as u8, \"read\");"),
    ("std::future::Future", "poll", "type Output = u64; fn poll<'a>(self: Pin<&mut Self>, cx: &mut std::task::Context<'a>) -> std::task::Poll<u64>;",
     "mock.expect_poll().times(2).returning({ let mut n = 0; move |cx| { n += 1; cx.waker().wake_by_ref(); if n == 1 { std::task::Poll::Pending } else { std::task::Poll::Ready(x) } } }); same!(block_on(&mut mock), x, \"poll\");"),
    ("From<u64>", "from", "fn from(value: u64) -> Self;",
     "let cx = <MOCK>::from_context(); cx.expect().times(1).withf(move |v| *v == x).returning(|_| Default::default()); let _m: MOCK = x.into(); cx.checkpoint();"),
    ("std::str::FromStr", "from_str", "type Err = u64; fn from_str(s: &str) -> Result<Self, u64>;",
     "let cx = <MOCK>::from_str_context(); cx.expect().times(2).returning(move |s| if s == \"ok\" { Ok(Default::default()) } else { Err(x) }); ensure!(\"ok\".parse::<MOCK>().is_ok(), \"parse\"); same!(\"no\".parse::<MOCK>().err(), Some(x), \"parse\"); cx.checkpoint();"),
    ("std::convert::TryFrom<u8>", "try_from", "type Error = u64; fn try_from(v: u8) -> Result<Self, <Self as std::convert::TryFrom<u8>>::Error>;",
     "let cx = <MOCK>::try_from_context(); cx.expect().times(1).returning(move |_| Err(x)); same!(<MOCK as std::convert::TryFrom<u8>>::try_from(1).err(), Some(x), \"try_from\"); cx.checkpoint();"),
    ("std::hash::Hasher", "finish", "fn finish(&self) -> u64; fn write(&mut self, bytes: &[u8]);",
     "mock.expect_write().times(1).withf(|b| b.len() == 8).return_const(()); mock.expect_finish().times(1).return_const(x); { use std::hash::{Hash, Hasher as _}; 7u64.hash(&mut mock); same!(mock.finish(), x, \"finish\"); }"),
    ("PartialEq", "eq", "fn eq(&self, other: &Self) -> bool;", "mock.expect_eq().times(1).return_const(x % 2 == 0); let o = <MOCK as Default>::default(); same!(mock == o, x % 2 == 0, \"eq\");"),
    ("PartialEq<u64>", "eq", "fn eq(&self, other: &u64) -> bool;", "mock.expect_eq().times(2).returning(move |o| *o == x); ensure!(mock == x && mock != x ^ 1, \"eq\");"),
    ("std::ops::Add<u64>", "add", "type Output = u64; fn add(self, rhs: u64) -> u64;", "mock.expect_add().times(1).returning(move |r| r ^ x); same!(mock + 5, 5 ^ x, \"add\"); let mut mock = <MOCK as Default>::default();"),
    ("std::ops::AddAssign<u64>", "add_assign", "fn add_assign(&mut self, rhs: u64);", "mock.expect_add_assign().times(1).withf(move |r| *r == x).return_const(()); mock += x;"),
    ("std::ops::Index<usize>", "index", "type Output = u64; fn index(&self, i: usize) -> &u64;", "mock.expect_index().times(1).withf(|i| *i == 3).return_const(x); same!(mock[3], x, \"index\");"),
    ("std::ops::Not", "not", "type Output = bool; fn not(self) -> bool;", "mock.expect_not().times(1).return_const(true); ensure!(!mock, \"not\"); let mut mock = <MOCK as Default>::default();"),
    ("IntoIterator", "into_iter", "type Item = u64; type IntoIter = std::vec::IntoIter<u64>; fn into_iter(self) -> std::vec::IntoIter<u64>;",
     "mock.expect_into_iter().times(1).returning(move || vec![x].into_iter()); for i in mock { same!(i, x, \"item\"); } let mut mock = <MOCK as Default>::default();"),
    ("std::error::Error", "source", "fn source(&self) -> Option<&(dyn std::error::Error + 'static)>;", None),
    ("std::borrow::Borrow<str>", "borrow", "fn borrow(&self) -> &str;", "mock.expect_borrow().times(1).return_const(x.to_string()); same!(std::borrow::Borrow::<str>::borrow(&mock), x.to_string(), \"borrow\");"),
    ("Clone", "clone", "fn clone(&self) -> Self;", "mock.expect_clone().times(1).returning(|| { let mut m = <MOCK as Default>::default(); m.expect_tag().times(1).return_const(9u8); m }); same!(mock.clone().tag(), 9u8, \"clone\");"),
]


def item_std(g):
    """mock! with traits of the standard library"""
    r = g.rnd
    name = r.choice(["Foo", "Widget", "Io"])
    ts, used = [], set()
    for t in r.sample(STD, r.choice([1, 2, 3, 4, 5])):
        names = {t[1], t[0].split("<")[0]} | ({"write"} if t[1] == "finish" else set())
        if t[3] is None or names & used:
            continue
        used |= names
        ts.append(t)
    if "eq" in used and "deref" in used or "as_ref" in used and "deref" in used or "Iterator" in used and "IntoIterator" in used:
        ts = ts[:1]
    if {"std::fmt::Debug", "PartialEq"} <= {t[0] for t in ts}:
        ts = ts[:1]  # arguments are formatted in each call: the other mock would be too
    debug_impl = any(t[0] == "std::fmt::Debug" for t in ts)
    derive = not debug_impl and r.random() < 0.5
    gen = r.random() < 0.25
    d, a, c = ("<Tt: 'static>", "<Tt>", "<u16>") if gen else ("", "", "")
    mock = f"Mock{name}{c}"
    impls = "\n".join(f"        impl{d} {t[0]} for {name}{a} {{ {t[2]} }}" for t in ts)
    text = f"mock! {{\n        /// A mock\n        {'#[derive(Debug)]' if derive else ''}\n        pub {name}{d} {{\n            /// Tag\n            pub fn tag(&self) -> u8;\n        }}\n{impls}\n}}\n"
    g.feats |= {"mock!", "standard traits"} | {"impl " + t[0] for t in ts}
    body = ""
    for t in ts:
        body += f"""
        {{
            m.count("methods_tested");
            let x: u64 = r.next() >> 8;
            let mut mock = <{mock} as Default>::default();
            {t[3].replace("MOCK", mock)}
            mock.checkpoint();
        }}"""
    return text, body


KINDS = [item_trait] * 4 + [item_impl] * 2 + [item_impl_trait] + [item_mock] * 4 + [item_module, item_std, item_std]
PRELUDE = """#[allow(unused_imports)]
    use mockall::*;
    #[allow(unused_imports)]
    use super::*;"""


def items(seed, n, only_special=False):
    out = []
    for k in range(n):
        rnd = random.Random(seed * 100003 + k)
        g = Item(rnd, k)
        if only_special == "walk" and k % 3:
            text, tests, feats = gen_special.item_walk(rnd, k)
            g.feats |= set(feats)
        elif only_special or rnd.random() < 0.42:
            text, tests, feats = gen_special.item_any(rnd)
            g.feats |= set(feats)
        else:
            text, tests = rnd.choice(KINDS)(g)
        if rnd.random() < 0.15:
            t = rnd.choice([x for x in ["u8", "u16", "u32", "i64", "String", "Rich", "bool", "Plain"] if re.search(rf"\b{x}\b", text)] or ["u8"])
            text = "macro_rules! define { ($t:ty) => {\n" + re.sub(rf"(?<![\w:])\b{t}\b(?!:)", "$t", text) + "} }\ndefine!(" + t + ");\n"
            g.feats.add("defined by a macro")
        out.append((k, text, tests, sorted(g.feats)))
    return out


HEAD = """#![deny(warnings)]
#![deny(missing_docs)]
#![allow(async_fn_in_trait, improper_ctypes_definitions)]
#![allow(stable_features, unexpected_cfgs)]
//! generated
#[allow(unused_imports)]
pub(crate) use futures::executor::block_on;
#[allow(unused_imports)]
pub(crate) use std::{ffi::{CStr, OsStr}, path::Path, future::Future, marker::PhantomData, pin::Pin, rc::Rc, sync::Arc};
#[allow(unused_imports)]
pub(crate) use vh::defs::{*, Item as TestedItem};
"""


def program(its, allow=""):
    s = [HEAD.replace("#![allow(async_fn", "#![allow(" + allow + "async_fn", 1)]
    for k, text, tests, feats in its:
        body = "\n".join("    " + l for l in text.splitlines())
        dead = "#[allow(dead_code, private_interfaces, private_bounds)]\n" if "defined by a macro" in feats else ""
        s.append(f"{dead}/// Item {k}\npub mod it_{k} {{\n    {PRELUDE}\n{body}\n    /// Test\n    #[allow(unused_mut, unused_variables, deprecated, unused_unsafe, clippy::all, unused_parens, let_underscore_drop, unused_must_use)]\n"
                 f"    pub fn run_tests(r: &mut Rng, m: &mut Mon) -> Verdict {{\n        {tests}\n        Ok(())\n    }}\n}}\n")
    s.append("/// All\npub static ITEMS: &[TestedItem] = &[")
    for k, _, _, feats in its:
        s.append("    TestedItem { name: \"it_%d\", features: &[%s], run: it_%d::run_tests }," % (k, ", ".join('"%s"' % f for f in feats), k))
    s.append("];\n")
    return "\n".join(s)


CARGO = """[package]
name = "vhdefs"
version = "0.1.0"
edition = "%s"

[workspace]

[features]
nightly = ["mockall/nightly", "vh/nightly"]

[dependencies]
mockall = { path = "%s/mockall" }
vh = { path = "%s" }
futures = { version = "0.3.7", default-features = false, features = ["std", "executor"] }
async-trait = "0.1.38"

[profile.dev]
debug = 0
incremental = false
"""


def write(out, repo, harness, its, edition="2021", allow=""):
    os.makedirs(os.path.join(out, "src"), exist_ok=True)
    files = {"Cargo.toml": CARGO % (edition, repo, harness), "src/lib.rs": program(its, allow),
             "src/main.rs": "fn main() { vh::mon::drive(&[(\"defs\", |r, m| vh::defs::history(r, m, vhdefs::ITEMS))]) }\n",
             "Cargo.lock": open(os.path.join(harness, "Cargo.lock")).read()}
    for f, t in files.items():
        p = os.path.join(out, f)
        if f != "Cargo.lock" and os.path.exists(p) and open(p).read() == t:
            continue
        with open(p, "w") as h:
            h.write(t)


if __name__ == "__main__":
    import sys
    its = items(int(sys.argv[1]), int(sys.argv[2]), len(sys.argv) > 5)
    if len(sys.argv) > 4:
        its = [i for i in its if i[0] in [int(x) for x in sys.argv[4].split(",")]]
    write(sys.argv[3], "/repo", "/verif/harness", its)
