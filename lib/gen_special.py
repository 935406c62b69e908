"""C14: definitions whose methods use the special forms that mockall documents: closures, concretize, lifetimes
in results, qualified paths, Deref'd results, ...; each form in every kind of definition that can hold it."""
import random
import re

A = ["u8", "u16", "u32", "i32", "i64", "u64", "usize", "String", "Rich", "bool"]
ARGN = ["x", "y", "f", "g", "c", "e", "m", "v", "no_match_msg", "rfunc", "matcher", "args", "this", "guard", "p0", "context", "r#in",
        "value", "_unused", "o", "key", "result", "default", "arg0", "expectation", "l", "r#type", "d", "call", "obj", "i", "__s"]
NAMES = ["foo", "bar", "get", "set", "call", "matches", "times", "with", "deref", "len", "r#type", "r#match", "f", "x", "a", "returning",
         "never", "poll_it", "send", "foo2", "withf", "is_done", "_hid", "expect_it", "context", "lock", "st", "inner"]
TP = ["T", "U", "F", "M", "R", "P", "Q", "A", "V", "E", "S", "O", "I", "W", "Out", "Fx"]


class Form:
    """One method.  `sig` lacks the receiver, which stands as SELF; test(c) yields statements"""

    def __init__(self, feat, name, head, params, ret, where, test, recv, attrs=(), objsafe=False, only=None, body="unimplemented!()", setup="", needs_t=False,
                 result_ok=True, is_async=False):
        self.__dict__.update(locals())

    def sig(self):
        r = {"ref": "&self", "mut": "&mut self", "aref": "&'a self", "amut": "&'a mut self", "life0": "&'life0 self", "static": None, "val": "self",
             "box": "self: Box<Self>"}[self.recv]
        ps = ([r] if r else []) + self.params
        w = f" where {', '.join(self.where)}" if self.where else ""
        q = "async " if self.is_async else ""
        return f"{q}fn {self.name}{self.head}({', '.join(ps)}){self.ret}{w}"


class C:
    """How a test reaches the method"""

    def __init__(self, f, mock, ctx, call, new):
        self.f, self.mock, self.ctx, self.call_, self.new = f, mock, ctx, call, new
        self.plain = f.name.replace("r#", "")

    def ex(self, fish=""):
        return f"cx.expect{fish}()" if self.f.recv == "static" else f"mock.expect_{self.plain}{fish}()"

    def call(self, *args, fish=""):
        return self.call_(fish, ", ".join(args))


class G:
    def __init__(self, rnd):
        self.r = rnd
        self.used, self.feats, self.odd = set(), set(), False
        self.t = None      # the item's type parameter
        self.tc = None     # and what it is

    def name(self):
        n = self.r.choice([n for n in NAMES if n not in self.used])
        if self.odd and self.r.random() < 0.04 and "getX" not in self.used:
            n = "getX"
        self.used.add(n)
        return n

    def args(self, n, but=()):
        return self.r.sample([a for a in ARGN if a not in but], n)

    def tp(self, n):
        return self.r.sample([t for t in TP if t != self.t], n)


def recv(g, static=True, also=()):
    return g.r.choice(["ref"] * 4 + ["mut"] * 2 + (["static"] * 2 if static else []) + list(also))


def bound(g, t, b):
    """`T: B` inline or in a where clause"""
    return (f"{t}: {b}", []) if g.r.random() < 0.5 else (t, [f"{t}: {b}"])


def vis_mut(g, a):
    return a


# ---- the forms ----

def f_closure(g):
    r = g.r
    kind = r.choice(["Fn", "FnMut", "FnOnce"])
    a, b = r.choice(A), r.choice(A)
    t, = g.tp(1)
    n = r.choice([1, 1, 1, 2, 0])
    ats = [a, "u16"][:n]
    path = r.choice(["", "", "std::ops::"])
    extra = r.choice(["", "", " + Send"])
    d, w = bound(g, t, f"{path}{kind}({', '.join(ats)}) -> {b} + 'static{extra}" if r.random() < 0.8 else f"'static + {path}{kind}({', '.join(ats)}) -> {b}{extra}")
    x, y = g.args(2)
    # beside a predicate about another type
    u = [q for q in ("U", "Q9", "Other") if q != t and q != getattr(g, "t", "")][0] if r.random() < 0.25 else None
    if u:
        d, w = d + f", {u}", w + [f"{u}: Fk + 'static", f"{u}::Out: 'static"]
        r.shuffle(w)
    fish = f"::<_, Snd>" if u else ""
    m = "mut " if kind == "FnMut" else ""
    cargs = ", ".join(["K::mk(w)", "9"][:n])
    first = r.random() < 0.5
    ps = [f"{x}: {t}", f"{y}: {a}"]
    order = ps if first else ps[::-1]
    pat = ["cf", "cx_"] if first else ["cx_", "cf"]
    if u:
        order = order + [f"zz: {u}::Out"]
        pat = pat + ["cz_"]

    def test(c):
        clo = f"move |{', '.join(['q0', 'q1'][:n])}| {{ {'let _ = (' + ''.join('&q%d,' % i for i in range(n)) + ');' if n else ''} <{b} as K>::mk(mix(&[w, {'q0.key(), ' if n else ''}{'q1 as u64, ' if n > 1 else ''}5])) }}"
        args = [clo, f"<{a} as K>::mk(w ^ 3)"]
        if not first:
            args.reverse()
        if u:
            args.append("w as u32")
        cw = ""
        if kind == "Fn" and r.random() < 0.5:
            # matchers may call it
            cw = f".withf(move |{', '.join(pat)}| {{ let _ = ({'cz_, ' if u else ''}cx_); cf({cargs}).key() == want }})"
        elif r.random() < 0.5:
            cw = f".withf(move |{', '.join(pat)}| {{ let _ = ({'cz_, ' if u else ''}&cf); cx_.key() == <{a} as K>::mk(w ^ 3).key() }})"
        want = f"<{b} as K>::mk(mix(&[w, {f'<{a} as K>::mk(w).key(), ' if n else ''}{'9, ' if n > 1 else ''}5])).key()"
        one = r.choice(["returning", "return_once"])
        return (f"let want = {want}; {c.ex('::<Snd>' if u else '')}.times(1){cw}.{one}(move |{', '.join((m if p == 'cf' else '') + p for p in pat)}| {{ let _ = ({'&cz_, ' if u else ''}&cx_); cf({cargs}) }}); "
                f"let got = {c.call(*args, fish=fish)}; same!(got.key(), want, \"closure's result\");")
    return Form(f"closure {kind}", g.name(), f"<{d}>", order, f" -> {b}", w, test, recv(g))


def f_concretize(g):
    r = g.r
    n = r.choice([1, 1, 2])
    ts = g.tp(n)
    ds, ws, params, calls, keys, wants, setup, after = [], [], [], [], [], [], "", ""
    names = g.args(n + 1)
    for i, t in enumerate(ts):
        how = r.choice(["val", "ref", "mut", "slice"])
        b = "Kd" if how != "mut" else "Km"
        if r.random() < 0.2:
            b += " + Send"
        d, w = bound(g, t, b)
        ds.append(d)
        ws += w
        params.append(f"{names[i]}: " + {"val": t, "ref": f"&{t}", "mut": f"&mut {t}", "slice": f"&[{t}]"}[how])
        v = r.choice(["u64", "u8", "own"])
        if how == "mut":
            v = "u64"
        val = {"u64": f"(w ^ {i})", "u8": f"((w ^ {i}) as u8 as u64)", "own": f"(w ^ {i})"}[v]
        mk = {"u64": f"w ^ {i}", "u8": f"Small((w ^ {i}) as u8)", "own": f"Owned((w ^ {i}).to_string())"}[v]
        if how == "slice":
            setup += f"let s{i} = [{mk}, {mk}]; "
            calls.append(f"&s{i}")
            keys.append((f"mix(&a{i}.iter().map(|q| q.k()).collect::<Vec<u64>>())", f"mix(&[{val}, {val}])"))
        else:
            setup += f"let {'mut ' if how == 'mut' else ''}s{i} = {mk}; "
            calls.append({"val": "", "ref": "&", "mut": "&mut "}[how] + f"s{i}")
            keys.append((f"a{i}.{'km' if how == 'mut' else 'k'}()", val))
            if how == "mut":
                after += f"same!(s{i}, ({val}) ^ 1, \"written through\"); "
    o = r.choice(A)
    params.append(f"{names[n]}: {o}")
    calls.append(f"<{o} as K>::mk(w)")
    muts = [i for i, p in enumerate(params) if "&mut" in p]
    attr = r.choice(["#[concretize]", "#[mockall::concretize]", "#[cfg_attr(all(), mockall::concretize)]", "#[cfg_attr(not(target_os = \"multics\"), concretize)]", "#[::mockall::concretize]"])

    def test(c):
        pat = [f"a{i}" for i in range(n)] + ["ao"]
        key = f"mix(&[{', '.join(k for k, _ in keys)}, ao.key()])"
        want = f"mix(&[{', '.join(k for _, k in keys)}, <{o} as K>::mk(w).key()])"
        wf = f".withf(move |{', '.join(pat)}| {key} == want)" if r.random() < 0.7 else ""
        return (f"{setup} let want = {want}; {c.ex()}.times(1){wf}.returning(move |{', '.join(pat)}| {{ let k = {key}; {' '.join('a%d.bump();' % i for i in muts)} k }}); "
                f"let got = {c.call(*calls)}; same!(got, want, \"returned\"); {after}")
    return Form("concretize", g.name(), f"<{', '.join(ds)}>", params, " -> u64", ws, test, recv(g), attrs=[attr])


def anon(r, depth=0):
    """A type with anonymous lifetimes: its text, a value made of w, a check of `g`"""
    k = r.randrange(5 if depth > 1 else 9)
    if depth > 1 and k == 4 or k == 8:
        return r.choice([("*const Lt<'_>", "leak(Lt(leak(w))) as *const _", "unsafe {*(*(&*%s)).0} == w"), ("fn(Lt<'_>) -> Lt<'_>", "(|q| q) as fn(Lt<'_>) -> Lt<'_>", "*(%s)(Lt(&w)).0 == w"),
                         ("fn(&'_ u64, &u64) -> u64", "(|q, x| *q ^ *x) as fn(&u64, &u64) -> u64", "(%s)(&w, &1) == w ^ 1"), ("(&'_ str, u8)", "(leak(w.to_string()).as_str(), 1)", "(%s).0 == w.to_string()"),
                         ("(u8, &'_ dyn Kd)", "(1, leak(w) as &dyn Kd)", "(%s).1.k() == w"), ("(&'_ [Lt<'_>], &'_ [u64; 1])", "(leak([Lt(leak(w))]) as &[Lt<'_>], leak([w]))", "*(%s).0[0].0 == w && (%s).1[0] == w")])
    if k in (0, 1):
        return "Lt<'_>", "Lt(leak(w))", "*%s.0 == w"
    if k == 2:
        return "Two<'_, '_>", "Two(leak(w), leak(w ^ 1))", "(*%s.0, *%s.1) == (w, w ^ 1)"
    if k == 3:
        return r.choice([("LtT<'_, u8>", "LtT(leak(w as u8), 3)", "(*%s.0, %s.1) == (w as u8, 3)"), ("&'_ u64", "leak(w)", "*%s == w") if depth else ("LtT<'_, String>", "LtT(leak(String::new()), w.to_string())", "%s.1 == w.to_string()")])
    if k == 4:
        n = r.choice([1, 2, 3])
        t, v, c = anon(r, depth + 1)
        return f"[{t}; {n}]", f"[{', '.join([v] * n)}]", c.replace("%s", f"(%s)[{n - 1}]")
    if k == 5:
        t, v, c = anon(r, depth + 1)
        return f"({t},)", f"({v},)", c.replace("%s", "(%s).0")
    n = r.choice([2, 3])
    xs = [anon(r, depth + 1) for _ in range(n)]
    return f"({', '.join(x[0] for x in xs)})", f"({', '.join(x[1] for x in xs)})", " && ".join(x[2].replace("%s", f"(%s).{i}") for i, x in enumerate(xs))


def f_lt_result(g):
    r = g.r
    k = r.randrange(10)
    if k == 9 and r.random() < 0.4:
        t, v, c = anon(r, 1)
        if r.random() < 0.3:
            t, v, c = r.choice([("(dyn Kd + '_)", "Box::new(w) as Box<dyn Kd>", "got.k() == w"), ("(dyn Kd + Send + '_)", "Box::new(w) as Box<dyn Kd + Send>", "got.k() == w")])
            return Form("returns &(dyn Trait + '_)", g.name(), "", [], f" -> &{t}", [], lambda cc: f"{cc.ex()}.times(1).return_const({v}); let got = {cc.call()}; same!({c}, true, \"returned\");", "ref", objsafe=True)
        if "*" not in t and "dyn" not in t:
            return Form("returns slices of types of '_", g.name(), "", [], f" -> &[{t}]", [],
                        lambda cc: f"{cc.ex()}.times(1).return_const(vec![{v}]); let got = {cc.call()}; same!({c.replace('%s', '(got[0])')}, true, \"returned\");", "ref", objsafe=True)
    if k == 9:
        t, v, c = anon(r)
        if t[0] != "&" and "*" not in t and "dyn" not in t:
            two = r.random() < 0.5
            return Form("returns references to types of '_", g.name(), "", [], f" -> &{t}", [],
                        lambda cc: f"{cc.ex()}.times(2).return_const({v}); same!({{ let got = {cc.call()}; {c.replace('%s', '(*got)')} }}, true, \"returned\"); same!({{ let got = {cc.call()}; {c.replace('%s', '(*got)')} }}, true, \"returned\");", "ref", objsafe=True)
    if k > 5:
        t, v, c = anon(r)
        return Form("returns types of '_", g.name(), "", [], f" -> {t}", [],
                    lambda cc: f"{cc.ex()}.times(1).returning(move || {v}); let got = {cc.call()}; same!({c.replace('%s', 'got')}, true, \"returned\");", r.choice(["ref", "mut"]), objsafe=True, attrs=["#[allow(unused_parens)]"])
    lt = r.choice(["'a", "'r", "'life0", "'__mockall"][:3])
    if k == 0:
        return Form("returns Type<'a>", g.name(), f"<{lt}>", [], f" -> Lt<{lt}>", [], lambda c: f"let l: &'static u64 = leak(w); {c.ex()}.times(1).{r.choice(['return_const(Lt(l))', 'returning(move || Lt(l))', 'return_once(move || Lt(l))'])}; let got = {c.call()}; same!(*got.0, w, \"returned\");", r.choice(["ref", "mut"]))
    if k == 1:
        return Form("returns &Type<'a>", g.name(), f"<{lt}>", [], f" -> &Lt<{lt}>", [], lambda c: f"let l: &'static u64 = leak(w); {c.ex()}.times(2).return_const(Lt(l)); same!(*{c.call()}.0, w, \"returned\"); same!(*{c.call()}.0, w, \"returned\");", r.choice(["ref", "ref"]), objsafe=False)
    if k == 2:
        return Form("returns Type<'_>", g.name(), "", [], " -> Lt<'_>", [],
                    lambda c: f"let l: &'static u64 = leak(w); {c.ex()}.times(1).returning(move || {'Some(Lt(l))' if 'Option' in c.f.ret else 'Lt(l)'}); let got = {c.call()}; same!(*got{'.unwrap()' if 'Option' in c.f.ret else ''}.0, w, \"returned\");", r.choice(["ref", "mut"]), objsafe=True)
    if k == 3:
        x, = g.args(1)
        return Form("&'a self", g.name(), "<'a>", [f"{x}: u32"], r.choice([" -> std::io::Result<&'a str>", " -> Result<&'a str, u8>"]), [],
                    lambda c: f"{c.ex()}.times(1).withf(move |q| *q == w as u32).returning(move |_| Ok(leak(w.to_string()))); same!({c.call('w as u32')}.unwrap(), w.to_string(), \"returned\");", r.choice(["aref", "amut"]), objsafe=True, attrs=["#[allow(clippy::needless_lifetimes)]"])
    if k == 4:
        x, = g.args(1)
        return Form("'life0 self", g.name(), "<'life0>", [f"{x}: u32"], " -> u32", [],
                    lambda c: f"{c.ex()}.times(1).returning(move |q| q ^ 5); same!({c.call('w as u32')}, w as u32 ^ 5, \"returned\");", "life0", objsafe=True)
    x, = g.args(1)
    return Form("returns Box<dyn + 'a>", g.name(), "<'a>", [f"{x}: u32"], r.choice([" -> Box<dyn Kd + 'a>", " -> Box<dyn Kd + 'static>", " -> Vec<Lt<'a>>"]), [],
                lambda c: f"{c.ex()}.times(1).returning(move |q| {'vec![Lt(leak(w ^ q as u64))]' if 'Vec' in c.f.ret else 'Box::new(w ^ q as u64)'}); same!(({'' if 'Vec' in c.f.ret else '*'}{c.call('w as u32')}){'[0].0' if 'Vec' in c.f.ret else ''}.k(), w ^ (w as u32 as u64), \"returned\");", "aref", objsafe=True)


def f_lt_args(g):
    r = g.r
    k = r.randrange(4)
    x, y = g.args(2)
    if k == 3:
        hd, w = r.choice([("<'a, 'b>", ["'b: 'a"]), ("<'b, 'a>", ["'b: 'a", "'b: 'b"])])
        return Form("'b: 'a", g.name(), hd, [f"{x}: &'a Lt<'b>", f"{y}: &'b u64"], " -> u64", w,
                    lambda c: f"{c.ex()}.times(1).withf(move |q, s| *q.0 == w && *s == w).returning(|q, s| *q.0 ^ *s ^ 3); let l = w; let v = Lt(&l); same!({c.call('&v', '&l')}, 3, \"returned\");", recv(g), objsafe=True)
    if k == 0:
        d = r.choice([2, 3, 6])
        ls = ["'a", "'b", "'c", "'d", "'e", "'f"][:d]
        return Form("nested lifetimes", g.name(), f"<{', '.join(ls)}>", [f"{x}: {' '.join('&' + l for l in ls)} i32"], " -> i32", [],
                    lambda c: f"{c.ex()}.times(1).withf(move |q| {'*' * d}q == w as i32).returning(|q| {'*' * d}q ^ 3); let v = w as i32; same!({c.call('&' * d + 'v')}, w as i32 ^ 3, \"returned\");", recv(g), objsafe=True)
    if k == 1:
        return Form("&'a Type<'a>", g.name(), "<'a>", [f"{x}: &'a Lt<'a>"], " -> u64", [],
                    lambda c: f"{c.ex()}.times(1).withf(move |q| *q.0 == w).returning(|q| *q.0 ^ 3); let l = w; let v = Lt(&l); same!({c.call('&v')}, w ^ 3, \"returned\");", recv(g), objsafe=True)
    return Form("for<'z> closures", g.name(), "", [f"{x}: Box<dyn for<'z> Fn(&'z u64) -> &'z u64>", f"{y}: &dyn for<'z> Fn(Lt<'z>) -> u64"], " -> u64", [],
                lambda c: f"{c.ex()}.times(1).withf(move |q, s| *q(&7) == 7 && s(Lt(&w)) == w ^ 9).returning(move |q, s| *q(&5) ^ s(Lt(&w))); same!({c.call('Box::new(|q| q)', '&|q: Lt<' + chr(39) + '_>| *q.0 ^ 9')}, 5 ^ w ^ 9, \"returned\");", recv(g), objsafe=True)


def f_qself(g):
    r = g.r
    t, = g.tp(1)
    x, y = g.args(2)
    k = r.randrange(5)
    sc, out, vb, out_s = {"Snd": ("Snd", "u32", "<Snd as Fk>::Out", "")}["Snd"]
    d, w = bound(g, t, "Fk + 'static")
    if k == 0:
        return Form("<T as Trait>::Out argument", g.name(), f"<{d}>", [f"{x}: <{t} as Fk>::Out"], "", w,
                    lambda c: f"{c.ex('::<Snd>')}.times(1).withf(move |q| *q == w as u32).return_const(()); {c.call('w as u32', fish='::<Snd>')};", recv(g))
    if k == 1:
        return Form("<T as Trait>::Out result", g.name(), f"<{d}>", [f"{x}: {t}"], f" -> <{t} as Fk>::Out", w,
                    lambda c: f"{c.ex('::<Snd>')}.times(1).{r.choice(['return_const(w as u32)', 'returning(move |_| w as u32)'])}; same!({c.call('Snd')}, w as u32, \"returned\");", recv(g))
    if k == 2:
        return Form("<T as Trait>::Out: Bound", g.name(), f"<{t}>", [f"{x}: {t}"], " -> u64", [f"{t}: Fk + 'static", f"<{t} as Fk>::Out: Send"],
                    lambda c: f"{c.ex('::<Snd>')}.times(1).return_const(w); same!({c.call('Snd')}, w, \"returned\");", recv(g))
    if k == 3:
        return Form("T::Out", g.name(), f"<{t}>", [f"{x}: {t}::Out", f"{y}: Option<{t}::Out>"], f" -> Vec<{t}::Out>", [f"{t}: Fk + 'static", f"{t}::Out: 'static"],
                    lambda c: f"{c.ex('::<Snd>')}.times(1).withf(move |q, s| *q == w as u32 && s.is_none()).returning(|q, _| vec![q]); same!({c.call('w as u32', 'None', fish='::<Snd>')}, vec![w as u32], \"returned\");", recv(g))
    return Form("Box<dyn Trait<<X as Y>::Out>>", g.name(), "", [f"{x}: Box<dyn Dt<<Snd as Fk>::Out>>"], " -> Box<dyn Dt<<Snd as Fk>::Out>>", [],
                lambda c: f"{c.ex()}.times(1).withf(move |q| q.dt() == w as u32).returning(|q| q); same!({c.call('Box::new(w as u32)')}.dt(), w as u32, \"returned\");", recv(g), objsafe=True)


def f_deref(g):
    r = g.r
    t, mk, chk = r.choice([
        (r.choice(["Path", "Path", "std::path::Path"]), "std::path::PathBuf::from(w.to_string())", "{} == std::path::Path::new(&w.to_string())"),
        (r.choice(["OsStr", "std::ffi::OsStr"]), "std::ffi::OsString::from(w.to_string())", "{} == std::ffi::OsStr::new(&w.to_string())"),
        (r.choice(["CStr", "::std::ffi::CStr", "core::ffi::CStr"]), "std::ffi::CString::new(w.to_string()).unwrap()", "{}.to_bytes() == w.to_string().as_bytes()"),
        ("str", "w.to_string()", "*{} == *w.to_string()"),
        ("[u8]", "w.to_le_bytes().to_vec()", "{} == w.to_le_bytes()"),
        ("[Rich]", "vec![Rich { v: w }; 3]", "{}.len() == 3 && {}[2].v == w"),
        ("[Plain]", "vec![Plain(w)]", "{}[0].0 == w"),
        ("String", "w.to_string()", "*{} == w.to_string()"),
        ("Vec<u64>", "vec![w]", "{}[0] == w"),
        ("Plain", "Plain(w)", "{}.0 == w"),
        ("dyn Kd", "Box::new(w) as Box<dyn Kd>", "{}.k() == w"),
        ("(dyn Kd + Send)", "Box::new(w) as Box<dyn Kd + Send>", "{}.k() == w"),
        ("(u8, Option<u64>)", "(1, Some(w))", "{}.1 == Some(w)"),
    ])
    x, = g.args(1)
    if r.random() < 0.25 and "[" in t or t == "str" and r.random() < 0.4:
        # statics return only &'static
        st = {"str": "leak(w.to_string())", "[u8]": "leak(w.to_le_bytes())", "[Rich]": "leak([Rich { v: w }; 3])", "[Plain]": "leak([Plain(w)])"}[t]
        return Form(f"returns &'static {t}", g.name(), "", [f"{x}: u8"], f" -> &'static {t}", [],
                    lambda c: f"{c.ex()}.times(2).return_const({st} as &'static {t}); ensure!({{ let got = {c.call('1')}; {chk.replace('{}', 'got')} }}, \"other value\"); ensure!({{ let got = {c.call('1')}; {chk.replace('{}', 'got')} }}, \"other value\");", recv(g), objsafe=True)
    if r.random() < 0.3 and "CStr" not in t:
        return Form(f"returns &mut {t}", g.name(), "", [f"{x}: u8"], f" -> &mut {t}", [],
                    lambda c: f"{c.ex()}.times(1).{r.choice(['return_var', 'return_var'])}({mk}); ensure!({{ let got = {c.call('1')}; {chk.replace('{}', 'got')} }}, \"other value\");", "mut", objsafe=True)
    return Form(f"returns &{t}", g.name(), "", [f"{x}: u8"], f" -> &{t}", [],
                lambda c: f"{c.ex()}.times(2).return_const({mk}); ensure!({{ let got = {c.call('1')}; {chk.replace('{}', 'got')} }}, \"other value\"); ensure!({{ let got = {c.call('1')}; {chk.replace('{}', 'got')} }}, \"other value\");", "ref", objsafe=True)


def f_gen_ref(g):
    """generic methods with references"""
    r = g.r
    t, u = g.tp(2)
    x, y = g.args(2)
    k = r.randrange(4)
    d, w = bound(g, t, "K + 'static")
    c_ = r.choice(A)
    if k == 0:
        return Form("generic, returns &T", g.name(), f"<{d}>", [f"{x}: {t}"], f" -> &{t}", w,
                    lambda c: f"{c.ex(f'::<{c_}>')}.times(1).with(predicate::function(move |q: &{c_}| q.key() == <{c_} as K>::mk(w).key())).return_const(<{c_} as K>::mk(w ^ 4)); same!({c.call(f'<{c_} as K>::mk(w)')}.key(), <{c_} as K>::mk(w ^ 4).key(), \"returned\");", "ref")
    if k == 1:
        return Form("generic, returns &mut T", g.name(), f"<{d}>", [f"{x}: {t}"], f" -> &mut {t}", w,
                    lambda c: f"{c.ex(f'::<{c_}>')}.times(1).return_var(<{c_} as K>::mk(w ^ 4)); same!({c.call(f'<{c_} as K>::mk(w)')}.key(), <{c_} as K>::mk(w ^ 4).key(), \"returned\");", "mut")
    if k == 2:
        return Form("generic, no generic argument", g.name(), f"<{d}>", [f"{x}: u8"], " -> u64", w,
                    lambda c: f"{c.ex('::<u8>')}.times(1).return_const(w); {c.ex('::<u16>')}.times(1).return_const(w ^ 1); same!({c.call('3', fish='::<u16>')}, w ^ 1, \"returned\"); same!({c.call('3', fish='::<u8>')}, w, \"returned\");", recv(g))
    return Form("generic, &[T] and Option<U>", g.name(), f"<{d}, {u}: 'static + K>", [f"{x}: &[{t}]", f"{y}: Option<{u}>"], f" -> Result<{u}, {t}>", w,
                lambda c: f"{c.ex(f'::<{c_}, u8>')}.times(1).withf(move |q, s| q.len() == 2 && s.is_some()).returning(|_, s| s.ok_or_else(|| K::mk(1))); same!({c.call(f'&[<{c_} as K>::mk(w), <{c_} as K>::mk(w)]', 'Some(w as u8)')}.ok(), Some(w as u8), \"returned\");", recv(g))


def f_where_self(g):
    x, = g.args(1)
    return Form("where Self: Sized", g.name(), "", [f"{x}: u64"], " -> u64", ["Self: Sized" + g.r.choice(["", " + 'static"])],
                lambda c: f"{c.ex()}.times(1).returning(|q| q ^ 2); same!({c.call('w')}, w ^ 2, \"returned\");", recv(g), only=("trait", "mocktrait", "implfor"))


def f_special(g):
    """a where clause for the item's parameter"""
    x, = g.args(1)
    if g.t is None:
        return f_where_self(g)
    return Form("specializing", g.name(), "", [f"{x}: {g.t}"], f" -> Option<{g.t}>", [f"{g.t}: {g.r.choice(['Default', 'Clone', 'PartialEq', 'std::fmt::Debug', 'Kt + Clone'])} + 'static"],
                lambda c: f"{c.ex()}.times(1).withf(move |q| q.key() == <{g.tc} as K>::mk(w).key()).returning(Some); same!({c.call(f'<{g.tc} as K>::mk(w)')}.unwrap().key(), <{g.tc} as K>::mk(w).key(), \"returned\");", recv(g))


def f_async(g):
    r = g.r
    x, y = g.args(2)
    k = r.randrange(4)
    g.feats.add("async")
    if k == 0:
        return Form("async with references", g.name(), "", [f"{x}: &str", f"{y}: &[u64]"], " -> String", [],
                    lambda c: f"{c.ex()}.times(1).withf(move |q, s| q == w.to_string() && s == [w]).returning(|q, _| q.to_string()); same!(block_on({c.call('&w.to_string()', '&[w]')}), w.to_string(), \"returned\");", recv(g), is_async=True)
    if k == 1:
        t, = g.tp(1)
        d, w = bound(g, t, "K + Send + 'static")
        return Form("async generic", g.name(), f"<{d}>", [f"{x}: {t}"], f" -> Option<{t}>", w,
                    lambda c: f"{c.ex('::<u16>')}.times(1).withf(move |q| *q == w as u16).returning(Some); same!(block_on({c.call('w as u16')}), Some(w as u16), \"returned\");", recv(g), is_async=True)
    if k == 2:
        return Form("async Result", g.name(), "", [f"{x}: u64", f"{y}: Option<&u64>" if False else f"{y}: Vec<u8>"], " -> Result<(), String>", [],
                    lambda c: f"{c.ex()}.times(1).returning(|q, s| if s.is_empty() {{ Ok(()) }} else {{ Err(q.to_string()) }}); same!(block_on({c.call('w', 'vec![1]')}), Err(w.to_string()), \"returned\");", recv(g), is_async=True)
    return Form("async unit", g.name(), "", [], "", [], lambda c: f"{c.ex()}.times(1).return_const(()); block_on({c.call()});", recv(g), is_async=True)


def f_impl(g):
    r = g.r
    x, = g.args(1)
    k = r.randrange(5)
    s = r.choice(["", " + Send", " + 'static", " + Send + 'static"])
    if k == 0:
        return Form("impl Iterator", g.name(), "", [f"{x}: u8"], f" -> impl Iterator<Item = u64>{s}", [],
                    lambda c: f"{c.ex()}.times(1).returning(move |q| Box::new((0..q as u64).map(move |i| i ^ w))); same!({c.call('3')}.collect::<Vec<u64>>(), vec![w, 1 ^ w, 2 ^ w], \"returned\");", recv(g), body="std::iter::empty()")
    if k == 1:
        return Form("impl Fn", g.name(), "", [f"{x}: u64"], f" -> impl Fn(u64) -> u64{s}", [],
                    lambda c: f"{c.ex()}.times(1).returning(move |q| Box::new(move |i| i ^ q)); same!({c.call('w')}(5), w ^ 5, \"returned\");", recv(g), body="|x| x")
    if k == 2:
        return Form("impl Stream-like future", g.name(), "", [f"{x}: u64"], f" -> impl std::future::Future<Output = Result<u64, Rich>>{s}", [],
                    lambda c: f"{c.ex()}.times(1).returning(move |q| Box::pin(async move {{ Ok(q) }})); same!(block_on({c.call('w')}).unwrap(), w, \"returned\");", recv(g), body="async { Ok(1) }")
    if k == 3:
        return Form("Pin<Box<dyn Future>>", g.name(), "", [f"{x}: u64"], f" -> Pin<Box<dyn Future<Output = u64>{s}>>", [],
                    lambda c: f"{c.ex()}.times(1).returning(move |q| Box::pin(async move {{ q }})); same!(block_on({c.call('w')}), w, \"returned\");", recv(g), objsafe=True)
    return Form("impl Trait, boxed closure", g.name(), "", [f"{x}: Box<dyn FnOnce(u64) -> u64{s.replace(' + ' + chr(39) + 'static', '') if 'Send' in s else ''}>"], f" -> Box<dyn FnMut(u64) -> u64>", [],
                lambda c: f"{c.ex()}.times(1).returning(move |q| {{ let v = q(w); Box::new(move |i| i ^ v) }}); let mut got = {c.call('Box::new(|q| q ^ 2)')}; same!(got(5), w ^ 2 ^ 5, \"returned\");", recv(g), objsafe=True)


def f_plain(g):
    r = g.r
    x, = g.args(1)
    t = g.t or r.choice(A)
    c_ = g.tc or t
    return Form("plain", g.name(), "", [f"{x}: {t}"], f" -> Option<{t}>", [],
                lambda c: f"{c.ex()}.times(1).withf(move |q| q.key() == <{c_} as K>::mk(w).key()).returning(Some); same!({c.call(f'<{c_} as K>::mk(w)')}.unwrap().key(), <{c_} as K>::mk(w).key(), \"returned\");", recv(g, also=["box"]), objsafe=True)


FORMS = [f_closure] * 3 + [f_concretize] * 3 + [f_lt_result] * 4 + [f_lt_args] * 2 + [f_qself] * 2 + [f_deref] * 3 + [f_gen_ref] * 2 + [f_where_self, f_special, f_special] + [f_async] * 2 + [f_impl] * 2 + [f_plain]


def test_of(f, mock, trait, style, module=None):
    plain = f.name.replace("r#", "")
    r = {"ref": "&mock", "mut": "&mut mock", "aref": "&mock", "amut": "&mut mock", "life0": "&mock", "val": "mock", "box": "Box::new(mock)"}.get(f.recv)
    if module:
        def call(fish, args):
            return f"mock_{module}::{f.name}{fish}({args})"
    elif f.recv == "static":
        def call(fish, args):
            return (f"<{mock} as {trait}>" if trait else f"<{mock}>") + f"::{f.name}{fish}({args})"
    else:
        def call(fish, args):
            if trait:
                return f"<{mock} as {trait}>::{f.name}{fish}({', '.join([r] + ([args] if args else []))})"
            return ("mock" if f.recv != "box" else "Box::new(mock)") + f".{f.name}{fish}({args})"
    c = C(f, mock, None, call, None)
    cx = f"mock_{module}::{plain}_context()" if module else f"<{mock}>::{plain}_context()"
    pre = f"let cx = {cx};" if f.recv == "static" else f"let mut mock = <{mock} as Default>::default();"
    post = "cx.checkpoint();" if f.recv == "static" else "" if f.recv in ("box", "val") else "mock.checkpoint();"
    return f"""
        {{ // {plain}: {f.feat}
            m.count("methods_tested");
            let w: u64 = (r.next() >> 8) | 1;
            {pre}
            {f.test(c)}
            {post}
        }}"""


def item_special(rnd):
    g = G(rnd)
    g.odd = True
    r = rnd
    style = r.choice(["trait", "trait", "trait", "impl", "mock", "mock", "mocktrait", "mocktrait", "implfor", "module"])
    if style != "module" and r.random() < 0.35:
        g.t, g.tc = r.choice(["T", "V", "Z", "Item"]), r.choice(["u8", "String", "Rich", "u32"])
    asy = style in ("trait", "mocktrait", "implfor") and r.random() < 0.2
    forms = []
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        f = r.choice(FORMS if not asy else FORMS + [f_async] * 9)(g)
        if f.only and style not in f.only or style in ('trait', 'implfor') and re.search(r' as Fk>|\bFn(Mut|Once)?\(', ' '.join(f.params) + f.ret + ''.join(x for x in [f.head] + f.where if 'Fk' in x)):
            continue
        if style == "module":
            if f.recv != "static":
                continue
        if asy and (f.feat == "returns Type<'_>" and False):
            continue
        forms.append(f)
    if not forms:
        return item_special(rnd)
    # bodies that cannot be left out
    tb = r.choice(["'static", "'static", "K + 'static", "'static + Kt"])
    d = f"<{g.t}: {tb}>" if g.t else ""
    wd = ""
    if g.t and r.random() < 0.4:
        d, wd = f"<{g.t}>", f" where {g.t}: {tb}"
        g.feats.add("special: item where clause")
    a = f"<{g.t}>" if g.t else ""
    ca = f"<{g.tc}>" if g.t else ""
    nm = r.choice(["Foo", "Svc", "Thing", "Qq", "foo_t", "HTTP_client"])
    camel = "_" not in nm
    tr = r.choice(["Tr", "Source", "Iface"])
    mock = f"Mock{nm}{ca}"
    g.feats |= {"special: " + f.feat for f in forms} | {f"special {style}"}
    at = "#[async_trait::async_trait(?Send)]\n" if asy else ""
    if asy:
        g.feats.add("async_trait")

    def attrs(f, vis=False):
        return "".join(f"    {x}\n" for x in ["/// A method"] + (["#[allow(non_snake_case)]"] if f.name == "getX" else []) + list(f.attrs))

    def body(f):
        names = [p.split(":")[0] for p in f.params]
        if f.feat == "impl Trait" or True:
            return f" {{ let _ = ({''.join('&' + n + ',' for n in names)}); {f.body} }}"
    na = "" if camel else "#[allow(non_camel_case_types)]\n"
    if style == "trait":
        ds = "\n".join(attrs(f) + f"    {f.sig()}" + (";" if r.random() < 0.75 or f.is_async or "impl " in f.ret else body(f)) for f in forms)
        text = f"/// A trait\n#[automock]\n{at}{na}#[allow(dead_code, clippy::all)]\npub trait {nm}{d}{wd} {{\n{ds}\n}}\n"
        trait = f"{nm}{ca}"
    elif style == "impl":
        ds = "\n".join(attrs(f) + f"    {r.choice(['pub ', 'pub ', 'pub(crate) '])}{f.sig()}{body(f)}" for f in forms)
        text = f"/// A struct\n{na}#[allow(dead_code)]\npub struct {nm}{a}(PhantomData<({g.t + ',' if g.t else ''})>);\n#[automock]\n#[allow(dead_code, clippy::all)]\nimpl{d} {nm}{a}{wd} {{\n{ds}\n}}\n"
        trait = None
    elif style == "module":
        ds = "\n".join(attrs(f) + f"    pub {f.sig()}{body(f)}" for f in forms)
        text = f"/// A module\n#[automock]\n#[allow(dead_code, clippy::all)]\npub mod {nm.lower()} {{\n    #[allow(unused_imports)]\n    use super::*;\n{ds}\n}}\n"
        return text, "".join(test_of(f, None, None, style, nm.lower()) for f in forms) + f"\n        mock_{nm.lower()}::checkpoint();", sorted(g.feats)
    elif style == "mock":
        ds = "\n".join(attrs(f) + f"    {r.choice(['pub ', 'pub ', ''])}{f.sig()};" for f in forms)
        text = f"mock! {{\n    /// A mock\n    pub {nm}{d}{wd} {{\n{ds}\n    }}\n}}\n"
        trait = None
    elif style == "mocktrait":
        def noc(f):
            return "".join(f"    {x}\n" for x in ["/// A method"] + (["#[allow(non_snake_case)]"] if f.name == "getX" else []) + [x for x in f.attrs if "concretize" not in x])
        td = "\n".join(noc(f) + f"    {f.sig()};" for f in forms)
        ds = "\n".join(attrs(f) + f"    {f.sig()};" for f in forms)
        text = f"/// A trait\n{at}#[allow(dead_code, clippy::all)]\npub trait {tr}{d}{wd} {{\n{td}\n}}\nmock! {{\n    /// A mock\n    pub {nm}{d}{wd} {{}}\n    {at}    impl{d} {tr}{a} for {nm}{a}{wd} {{\n{ds}\n    }}\n}}\n"
        trait = f"{tr}{ca}"
    else:
        td = "\n".join("    /// A method\n    #[allow(non_snake_case)]\n" + f"    {f.sig()};" for f in forms)
        ds = "\n".join(attrs(f) + f"    {f.sig()}{body(f)}" for f in forms)
        text = f"/// A trait\n{at}#[allow(dead_code, clippy::all)]\npub trait {tr}{d}{wd} {{\n{td}\n}}\n/// A struct\n{na}pub struct {nm}{a}(PhantomData<({g.t + ',' if g.t else ''})>);\n#[automock]\n{at}impl{d} {tr}{a} for {nm}{a}{wd} {{\n{ds}\n}}\n"
        trait = f"{tr}{ca}"
    tests = "".join(test_of(f, mock, trait, style) for f in forms)
    return text, tests, sorted(g.feats)


# ---- whole items ----

def w_specific(g):
    """One trait for several instances of a generic mock"""
    r = g.r
    nm, tr = r.choice(["Foo", "Bean"]), r.choice(["Bar", "Conv"])
    f = f_plain(g)
    while f.recv in ("static", "box"):
        f = f_plain(g)
    two = r.random() < 0.5
    cs = r.sample(["u32", "i32", "String", "Rich", "Vec<u8>"], r.choice([2, 2, 3]))
    d = "<X: 'static, Y: 'static>" if two else "<X: 'static>"
    own = g.name()
    gt = r.random() < 0.5     # a generic trait
    ta = "<Z>" if gt else ""
    td = f"    /// A method\n    {f.sig()};"
    impls = "\n".join(f"    impl{'<Y: ' + chr(39) + 'static>' if two else ''} {tr}{f'<{c}>' if gt else ''} for {nm}<{c}{', Y' if two else ''}> {{\n        /// A method\n        {f.sig()};\n    }}" for c in cs)
    text = f"/// A trait\n#[allow(dead_code)]\npub trait {tr}{ta} {{\n{td}\n}}\nmock! {{\n    /// A mock\n    pub {nm}{d} {{\n        /// Own\n        pub fn {own}(&self, x: X) -> X;\n    }}\n{impls}\n}}\n"
    tests = ""
    for c in cs:
        mock = f"Mock{nm}<{c}{', u16' if two else ''}>"
        tests += test_of(f, mock, f"{tr}{f'<{c}>' if gt else ''}", "mocktrait")
        tests += f"""
        {{
            m.count("methods_tested");
            let mut mock = <{mock} as Default>::default();
            let w: u64 = r.next();
            mock.expect_{own.replace('r#', '')}().times(1).withf(move |q| q.key() == <{c} as K>::mk(w).key()).returning(|q| q);
            same!(mock.{own}(<{c} as K>::mk(w)).key(), <{c} as K>::mk(w).key(), "returned");
            mock.checkpoint();
        }}"""
    # they can all live at once
    tests += "\n        let _all = (" + "".join(f"<Mock{nm}<{c}{', u16' if two else ''}> as Default>::default()," for c in cs) + ");"
    g.feats.add("special: partially specific impls" if two else "special: specific impls")
    return text, tests


def w_gat(g):
    r = g.r
    nm, n, item = r.choice(["Lending", "Cursor"]), g.name(), r.choice(["Item", "Row"])
    ty, mk, chk = r.choice([("&'a u32", "leak(w as u32)", "*got == w as u32"), ("Lt<'a>", "Lt(leak(w))", "*got.0 == w"), ("Option<&'a str>", "Some(leak(w.to_string()))", "got.unwrap() == w.to_string()"), ("Vec<&'a u64>", "vec![leak(w)]", "*got[0] == w")])
    rcv = r.choice(["&'a mut self", "&'a self"])
    wrap = r.choice(["Option", "Result"])
    ret, some = (f"Option<Self::{item}<'a>>", "Some") if wrap == "Option" else (f"Result<Self::{item}<'a>, u8>", "Ok")
    m = "mut " if "mut" in rcv else ""
    text = f"/// A trait\n#[automock(type {item}={ty};)]\n#[allow(dead_code)]\npub trait {nm} {{\n    /// Item\n    type {item}<'a> where Self: 'a;\n    /// A method\n    #[allow(clippy::needless_lifetimes)]\n    fn {n}<'a>({rcv}) -> {ret};\n}}\n"
    tests = f"""
        {{
            m.count("methods_tested");
            let w: u64 = r.next() >> 8;
            let mut mock = Mock{nm}::new();
            mock.expect_{n.replace('r#', '')}().times(2).returning(move || {some}({mk}));
            {{ let got = mock.{n}().unwrap(); ensure!({chk}, "other value"); }}
            {{ let got = <Mock{nm} as {nm}>::{n}(&{m}mock).unwrap(); ensure!({chk}, "other value"); }}
            mock.checkpoint();
        }}"""
    g.feats.add("special: generic associated type")
    return text, tests


def w_nonstatic(g):
    r = g.r
    nm, a, b = r.choice(["Holder", "View"]), g.name(), g.name()
    lt = r.choice(["'nss", "'a", "'x"])
    text = f"/// A struct\n#[allow(dead_code)]\npub struct {nm}<{lt}>(&{lt} u64);\n#[automock]\n#[allow(dead_code, clippy::all)]\nimpl<{lt}> {nm}<{lt}> {{\n    /// A method\n    pub fn {a}(&self, x: u64) -> u64 {{ x ^ *self.0 }}\n    /// A function\n    pub fn {b}(x: u64) -> u64 {{ x }}\n}}\n"
    tests = f"""
        {{
            m.count("methods_tested");
            let w: u64 = r.next() >> 8;
            fn with<'q>(_l: &'q u64, w: u64) -> Verdict {{
                let mut mock = Mock{nm}::<'q>::default();
                mock.expect_{a.replace('r#', '')}().times(1).withf(move |x| *x == w).returning(|x| x ^ 1);
                same!(mock.{a}(w), w ^ 1, "returned");
                mock.checkpoint();
                let cx = Mock{nm}::<'q>::{b.replace('r#', '')}_context();
                cx.expect().times(1).withf(move |x| *x == w).returning(|x| x ^ 2);
                same!(Mock{nm}::{b}(w), w ^ 2, "returned");
                cx.checkpoint();
                Ok(())
            }}
            let l = w;
            with(&l, w)?;
        }}"""
    g.feats.add("special: struct with a lifetime")
    return text, tests


def w_inherit(g):
    """Traits of the same name, supertraits, generic traits at several types"""
    r = g.r
    n1, n2, n3 = g.name(), g.name(), g.name()
    nm = r.choice(["Multi", "Both"])
    order = [f"    impl one::Tr for {nm} {{ fn {n1}(&self, x: u64) -> u64; }}", f"    impl two::Tr for {nm} {{ fn {n2}(&mut self, x: u64) -> u64; }}",
             f"    impl Sub for {nm} {{ fn {n3}(&self, x: &str) -> usize; }}"]
    r.shuffle(order)
    text = (f"/// One\npub mod one {{\n    /// A trait\n    #[allow(dead_code)]\n    pub trait Tr {{\n        /// A method\n        fn {n1}(&self, x: u64) -> u64;\n    }}\n}}\n"
            f"/// Two\npub mod two {{\n    /// A trait\n    #[allow(dead_code)]\n    pub trait Tr {{\n        /// A method\n        fn {n2}(&mut self, x: u64) -> u64;\n    }}\n}}\n"
            f"/// Sub\n#[allow(dead_code)]\npub trait Sub: one::Tr + two::Tr {{\n    /// A method\n    fn {n3}(&self, x: &str) -> usize;\n}}\n"
            f"mock! {{\n    /// A mock\n    pub {nm} {{}}\n" + "\n".join(order) + "\n}\n")
    e1, e2, e3 = (n.replace("r#", "") for n in (n1, n2, n3))
    tests = f"""
        {{
            m.count("methods_tested");
            let w: u64 = r.next() >> 8;
            let mut mock = Mock{nm}::new();
            mock.expect_{e1}().times(2).withf(move |x| *x == w).returning(|x| x ^ 1);
            mock.expect_{e2}().times(1).withf(move |x| *x == w).returning(|x| x ^ 2);
            mock.expect_{e3}().times(1).withf(|x| x == "abc").returning(|x| x.len());
            fn take<T: Sub>(t: &mut T, w: u64) -> Verdict {{
                same!(one::Tr::{n1}(t, w), w ^ 1, "one");
                same!(two::Tr::{n2}(t, w), w ^ 2, "two");
                same!(t.{n3}("abc"), 3, "sub");
                Ok(())
            }}
            take(&mut mock, w)?;
            let d: &dyn Sub = &mock;
            same!(one::Tr::{n1}(d, w), w ^ 1, "one, by dyn");
            mock.checkpoint();
        }}"""
    g.feats.add("special: traits of one name, and supertraits")
    return text, tests


def w_ctor(g):
    """Constructors with arguments, generic ones, in traits and structs"""
    r = g.r
    nm = r.choice(["Made", "Built"])
    w = r.choice(["Self", "Box<Self>", "Option<Self>", "Result<Self, u8>", "std::sync::Arc<Self>", "std::pin::Pin<Box<Self>>"])
    mk = {"Self": "{}", "Box<Self>": "Box::new({})", "Option<Self>": "Some({})", "Result<Self, u8>": "Ok({})", "std::sync::Arc<Self>": "std::sync::Arc::new({})", "std::pin::Pin<Box<Self>>": "Box::pin({})"}[w]
    un = {"Self": "got", "Box<Self>": "*got", "Option<Self>": "got.unwrap()", "Result<Self, u8>": "got.ok().unwrap()", "std::sync::Arc<Self>": "got", "std::pin::Pin<Box<Self>>": "got"}[w]
    c, n = r.choice(["new", "build", "from_parts"]), g.name()
    gen = r.random() < 0.4
    d, a, ca = ("<T: 'static>", "<T>", "<u32>") if gen else ("", "", "")
    sz = " where Self: Sized" if r.random() < 0.5 else ""
    style = r.choice(["trait", "mock", "mocktrait"])
    s1, s2 = f"fn {c}(v: u64) -> {w}", f"fn {n}(&self) -> u64"
    if style == "trait":
        text = f"/// A trait\n#[automock]\n#[allow(dead_code, clippy::new_ret_no_self)]\npub trait {nm}{d} {{\n    /// Makes\n    {s1}{sz or ' where Self: Sized'};\n    /// A method\n    {s2};\n}}\n"
        call = f"<Mock{nm}{ca} as {nm}{ca}>::{c}"
    elif style == "mock":
        text = f"mock! {{\n    /// A mock\n    pub {nm}{d} {{\n        /// Makes\n        pub {s1};\n        /// A method\n        pub {s2};\n    }}\n}}\n"
        call = f"<Mock{nm}{ca}>::{c}"
    else:
        text = f"/// A trait\n#[allow(dead_code, clippy::new_ret_no_self)]\npub trait Tr{d} {{\n    /// Makes\n    {s1}{sz or ' where Self: Sized'};\n    /// A method\n    {s2};\n}}\nmock! {{\n    /// A mock\n    pub {nm}{d} {{}}\n    impl{d} Tr{a} for {nm}{a} {{\n        {s1}{sz or ' where Self: Sized'};\n        {s2};\n    }}\n}}\n"
        call = f"<Mock{nm}{ca} as Tr{ca}>::{c}"
    use = f"<_ as {nm}{ca}>::{n}(&" if style == "trait" else f"<_ as Tr{ca}>::{n}(&" if style == "mocktrait" else None
    val = f"({un})" if w != "std::sync::Arc<Self>" and "Pin" not in w else "(*got)"
    get = f"{use}{val})" if use else f"{val}.{n}()"
    tests = f"""
        {{
            m.count("methods_tested");
            let w: u64 = r.next() >> 8;
            let cx = <Mock{nm}{ca}>::{c}_context();
            cx.expect().times(1).withf(move |v| *v == w).returning(|v| {{ let mut mock = <Mock{nm}{ca} as Default>::default(); mock.expect_{n.replace('r#', '')}().times(1).return_const(v ^ 3); {mk.replace('{}', 'mock')} }});
            let got = {call}(w);
            same!({get}, w ^ 3, "the mock made");
            cx.checkpoint();
        }}"""
    g.feats.add("special: constructor -> " + w)
    return text, tests


CTX = ["slice", "array", "ptr", "mutptr", "ref", "fn", "fnret", "fnref", "unsafefn", "tuple", "tuple3", "option", "vec", "box", "result", "pair", "fullpath", "dynarg", "dynassoc", "dynparen", "refdyn"]

REFS = frozenset({"slice", "ref", "refdyn", "dynparen"})


class Leaf:
    """A type that mockall must find or replace wherever it stands: its text, what it is in a test, a value of it, a check of one"""

    def __init__(self, ty, con, mk, chk):
        self.ty, self.con, self.mk, self.chk = ty, con, mk, chk


def walk(r, leaf, depth, top=True, no=frozenset()):
    """A type around a leaf: its text, itself in a test, a value, a check of a place %s that holds one.  Values are made of w alone."""
    if depth == 0:
        return leaf.ty, leaf.con, leaf.mk, leaf.chk
    if not top:
        no = no | REFS   # mockall takes no anonymous lifetimes further in
    k = r.choice([c for c in CTX if c not in no])
    if k in ("fn", "fnret", "fnref", "unsafefn"):
        t, ct, v, c = walk(r, leaf, 0 if "'a" in leaf.ty else depth - 1, False, no)
        if k == "fn":
            return f"fn({t}) -> {t}", f"fn({ct}) -> {ct}", f"((|q| q) as fn({ct}) -> {ct})", c.replace("%s", f"((%s)({v}))")
        if k == "fnret":
            return f"fn(u64) -> {t}", f"fn(u64) -> {ct}", f"((|w| {v}) as fn(u64) -> {ct})", c.replace("%s", "((%s)(w))")
        if k == "fnref":
            return f"fn(u8, &{t}) -> u8", f"fn(u8, &{ct}) -> u8", f"((|q, _| q ^ 1) as fn(u8, &{ct}) -> u8)", f"(%s)(3, &({v})) == 2"
        return f"unsafe fn({t})", f"unsafe fn({ct})", f"((|_| ()) as unsafe fn({ct}))", f"({{ (%s)({v}); true }})"
    t, ct, v, c = walk(r, leaf, depth - 1, False, no)
    if k in ("dynarg", "dynassoc", "dynparen", "refdyn"):
        src = f"Src::<{ct}>(|w| {v}, w)"
        d, s = (f"dyn Dg<%s>", "dg") if k in ("dynarg", "dynparen") else (f"dyn Ds<O = %s>", "o")
        c = f"({{ let g = (%s).{s}(); {c.replace('%s', 'g')} }})"
        w, m = {"refdyn": ("&%s", f"(&{src})"), "dynparen": ("&(%s + Send)", f"(&{src})")}.get(k, ("Box<%s>", f"(Box::new({src}) as Box<{d % ct}>)"))
        return w % (d % t), w % (d % ct), m, c
    ts, m, c = {"slice": ("&[%s]", f"&[{v}, {v}]", c.replace("%s", "(%s)[1]")),
                "array": ("[%s; 2]", f"[{v}, {v}]", c.replace("%s", "(%s)[1]")),
                "ptr": ("*const %s", f"{{ let g: {ct} = {v}; leak(g) as *const {ct} }}", c.replace("%s", "(*(&*%s))")),
                "mutptr": ("*mut %s", f"{{ let g: {ct} = {v}; Box::into_raw(Box::new(g)) }}", c.replace("%s", "(*(&*%s))")),
                "ref": ("&%s", f"(&{v})", c.replace("%s", "(*%s)")),
                "tuple": ("(%s, u8)", f"({v}, 3)", c.replace("%s", "(%s).0") + " && (%s).1 == 3"),
                "tuple3": ("(u8, u16, %s)", f"(1, 3, {v})", c.replace("%s", "(%s).2") + " && (%s).1 == 3"),
                "option": ("Option<%s>", f"Some({v})", c.replace("%s", "(*(%s).as_ref().unwrap())")),
                "vec": ("Vec<%s>", f"vec![{v}, {v}]", c.replace("%s", "(%s)[1]")),
                "box": ("Box<%s>", f"Box::new({v})", c.replace("%s", "(*%s)")),
                "result": ("Result<u8, %s>", f"Err({v})", c.replace("%s", "(*(%s).as_ref().err().unwrap())")),
                "pair": ("Pair<%s, u16>", f"Pair({v}, 4)", c.replace("%s", "(%s).0")),
                "fullpath": ("::std::option::Option<%s>", f"Some({v})", c.replace("%s", "(*(%s).as_ref().unwrap())"))}[k]
    return ts % t, ts % ct, m, c


WALKS = [(k, s) for k in ("assoc", "self", "super", "gen", "lt", "mgen") for s in ("trait", "mock", "mocktrait", "implfor", "impl")
         if not (k == "assoc" and s not in ("trait", "mocktrait") or k == "self" and s in ("impl", "implfor"))]


def w_walk(g, force=None):
    """Types that mockall replaces, in every position that a type can have"""
    r = g.r
    nm, tr = r.choice(["Foo", "Deep"]), r.choice(["Tr", "Src2"])
    kind, style = force or r.choice(WALKS + [w for w in WALKS if w[0] == "assoc"] * 3)
    d = a = ca = opts = asst = at = ""
    fish = ""
    head = ""
    sup = ""
    if kind == "assoc":
        an = r.choice(["T", "Item", "Out"])
        c_, mk, chk = r.choice([("u32", "(w as u32)", "%s == w as u32"), ("String", "w.to_string()", "%s == w.to_string()"), ("Rich", "Rich { v: w }", "%s.v == w")])
        leafs = [Leaf(f"<Self as {nm if style == 'trait' else tr}>::{an}", c_, mk, chk)]
        if style == "trait":
            leafs.append(Leaf(f"Self::{an}", c_, mk, chk))
        opts = f"type {an} = {c_};" if style == "trait" else ""
        asst, at = f"    /// Associated\n    type {an};\n", f"        type {an} = {c_};\n"
    elif kind == "self":
        sup = ": Sized"
        leafs = [Leaf("Self", f"Mock{nm}", f"<Mock{nm} as Default>::default()", f"({{ let _: &Mock{nm} = &%s; true }})")]
    elif kind == "super":
        leafs = [Leaf("super::Rich", "Rich", "Rich { v: w }", "%s.v == w"), Leaf("crate::Rich", "Rich", "Rich { v: w }", "%s.v == w"), Leaf("super::Pair<super::Rich, super::Rich>", "Pair<Rich, Rich>", "Pair(Rich { v: w }, Rich { v: 2 })", "%s.0.v == w")]
        if style != "impl":
            leafs.append(Leaf("self::Rich", "Rich", "Rich { v: w }", "%s.v == w"))
    elif kind == "gen":
        d, a, ca = r.choice(["<T: 'static>", "<T: 'static + Kt>"]), "<T>", "<u32>"
        leafs = [Leaf("T", "u32", "(w as u32)", "%s == w as u32")]
    elif kind == "mgen":
        head, fish = "<T: 'static>", "::<u32>"
        leafs = [Leaf("T", "u32", "(w as u32)", "%s == w as u32")]
    else:
        head = "<'a>"
        leafs = [Leaf("Lt<'a>", "Lt<'static>", "Lt(leak(w))", "*%s.0 == w"), Leaf("&'a u64", "&'static u64", "leak(w)", "**(&%s) == w")]
    mock, ms, tests = f"Mock{nm}{ca}", [], ""
    for _ in range(r.choice([3, 5, 8])):
        n = g.name()
        rcv = r.choice(["&self", "&self", "&mut self"])
        ps, vs, cs = [], [], []
        for x in g.args(r.choice([1, 1, 2, 3])):
            t, _, v, c = walk(r, r.choice(leafs), r.choice([1, 1, 2, 2, 3]), True, frozenset(["mutptr"] * (kind == "lt")))
            ps.append(f"{x}: {t}")
            vs.append(v)
            q = f"q{len(cs)}"
            cs.append(c.replace("%s", q if t[0] == "&" else f"(*{q})"))
        ret, rv, rc = " -> u64", "w", "got == w"
        if kind != "lt" and r.random() < 0.6:
            t, ct, v, c = walk(r, r.choice(leafs), r.choice([1, 1, 2, 2, 3]), True, REFS)
            if r.random() < 0.2:
                b, s = r.choice([(f"Dg<{t}>", "dg"), (f"Ds<O = {t}>", "o")])
                ret, rv, rc = f" -> impl {b}{r.choice(['', ' + Send'])}", f"Box::new(Src::<{ct}>(|w| {v}, w))", f"{{ let g = got.{s}(); {c.replace('%s', 'g')} }}"
            else:
                ret, rv, rc = f" -> {t}", v, c.replace("%s", "got")
        if "impl " in ret and (style in ("impl", "implfor")):
            ret, rv, rc = " -> u64", "w", "got == w"
        sg = f"fn {n}{head}({', '.join([rcv] + ps)}){ret}"
        ms.append((sg, [p.split(":")[0] for p in ps]))
        qs = ", ".join(f"q{i}" for i in range(len(ps)))
        us = ", ".join("_" for i in range(len(ps)))
        tests += f"""
        {{
            m.count("methods_tested");
            let w: u64 = (r.next() >> 8) | 1;
            let mut mock = <{mock} as Default>::default();
            mock.expect_{n.replace('r#', '')}{fish}().times(1).withf(move |{qs}| unsafe {{ {' && '.join(f'({c})' for c in cs)} }}).returning(move |{us}| {rv});
            same!(unsafe {{ let got = mock.{n}({', '.join(vs)}); {rc} }}, true, "returned");
            mock.checkpoint();
        }}"""
    allow = "#[allow(dead_code, private_interfaces, clippy::all)]"
    decls = "\n".join(f"    /// A method\n    {s};" for s, _ in ms)
    bodies = "\n".join(f"    /// A method\n    PUB{s} {{ let _ = ({''.join('&' + p + ',' for p in ps)}); unimplemented!() }}" for s, ps in ms)
    if style == "trait":
        text = f"/// A trait\n#[automock{'(' + opts + ')' if opts else ''}]\n{allow}\npub trait {nm}{d}{sup} {{\n{asst}{decls}\n}}\n"
    elif style == "mock":
        text = "mock! {\n    /// A mock\n    pub %s%s {\n%s\n    }\n}\n" % (nm, d, decls.replace("    fn ", "    pub fn "))
    elif style == "mocktrait":
        text = f"/// A trait\n{allow}\npub trait {tr}{d}{sup} {{\n{asst}{decls}\n}}\nmock! {{\n    /// A mock\n    pub {nm}{d} {{}}\n    impl{d} {tr}{a} for {nm}{a} {{\n{at}{decls}\n    }}\n}}\n"
    elif style == "impl":
        text = f"/// A struct\npub struct {nm}{a}(PhantomData<({'T,' if d else ''})>);\n#[automock]\n{allow}\nimpl{d} {nm}{a} {{\n{bodies.replace('PUB', 'pub ')}\n}}\n"
    else:
        text = f"/// A trait\n{allow}\npub trait {tr}{d} {{\n{decls}\n}}\n/// A struct\npub struct {nm}{a}(PhantomData<({'T,' if d else ''})>);\n#[automock]\nimpl{d} {tr}{a} for {nm}{a} {{\n{bodies.replace('PUB', '')}\n}}\n"
    g.feats |= {f"special: {kind} everywhere", f"special: {kind} everywhere in {style}"}
    return text, tests


WHOLE = [w_specific, w_gat, w_nonstatic, w_inherit, w_ctor, w_ctor] + [w_walk] * 2


def item_any(rnd):
    if rnd.random() < 0.45:
        g = G(rnd)
        text, tests = rnd.choice(WHOLE)(g)
        return text, tests, sorted(g.feats)
    return item_special(rnd)


def item_walk(rnd, k):
    g = G(rnd)
    text, tests = w_walk(g, WALKS[k % len(WALKS)])
    return text, tests, sorted(g.feats)
