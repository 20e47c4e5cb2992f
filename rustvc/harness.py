"""The runtime contract of the Rust wrappers: lib.rs (bridge module replaced by
a recording one) compiled natively and called with arbitrary arguments."""
import os
import re
import subprocess

from rustapi import Api, Unfit
from bridge import BridgeError, split_top

CXX = r"""
#![allow(warnings)]
mod cxx {
    use std::pin::Pin;
    pub struct UniquePtr<T>(Option<Box<T>>);
    impl<T> UniquePtr<T> {
        pub fn new(t: T) -> Self { UniquePtr(Some(Box::new(t))) }
        pub fn null() -> Self { UniquePtr(None) }
        pub fn is_null(&self) -> bool { self.0.is_none() }
        pub fn as_ref(&self) -> Option<&T> { self.0.as_deref() }
        pub fn as_mut(&mut self) -> Option<Pin<&mut T>> { self.0.as_deref_mut().map(|x| unsafe { Pin::new_unchecked(x) }) }
        pub fn pin_mut(&mut self) -> Pin<&mut T> { self.as_mut().expect("called pin_mut on a null UniquePtr") }
    }
    impl<T> std::ops::Deref for UniquePtr<T> {
        type Target = T;
        fn deref(&self) -> &T { self.as_ref().expect("called deref on a null UniquePtr") }
    }
    #[derive(Debug)]
    pub struct Exception { pub(crate) text: Box<str> }
    impl Exception { pub fn what(&self) -> &str { &self.text } }
    impl std::fmt::Display for Exception {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.text) }
    }
    impl std::error::Error for Exception {}
}
mod vc {
    use std::cell::{Cell, RefCell};
    thread_local! {
        pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new());
        pub static NEXT: Cell<u64> = Cell::new(1);
    }
    pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
    pub fn take() -> Vec<String> { LOG.with(|l| l.borrow_mut().drain(..).collect()) }
    pub fn next() -> u64 { NEXT.with(|n| { n.set(n.get() + 1); n.get() }) }
    pub trait Enc { fn enc(&self) -> String; }
    impl Enc for f64 { fn enc(&self) -> String { format!("{:?}/{:x}", self, self.to_bits()) } }
    impl Enc for f32 { fn enc(&self) -> String { format!("{:?}/{:x}", self, self.to_bits()) } }
    macro_rules! plain { ($($t:ty)*) => { $(impl Enc for $t { fn enc(&self) -> String { format!("{:?}", self) } })* } }
    plain!(usize isize i8 i16 i32 i64 u8 u16 u32 u64 bool String);
    impl Enc for () { fn enc(&self) -> String { String::new() } }
    impl<T: Enc> Enc for Vec<T> { fn enc(&self) -> String { format!("[{}]", self.iter().map(|x| x.enc()).collect::<Vec<_>>().join(", ")) } }
    impl<A, B> Enc for fn(A, B) { fn enc(&self) -> String { format!("fn@{:x}", *self as usize) } }
    impl<A> Enc for fn(A) { fn enc(&self) -> String { format!("fn@{:x}", *self as usize) } }

    pub struct Rng { pub s: u64, pub ints: Vec<u64>, pub reals: Vec<f64> }
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    }
    pub trait Gen { fn gen(r: &mut Rng) -> Self; }
    impl Gen for f64 { fn gen(r: &mut Rng) -> f64 {
        match r.below(10) {
            0 => [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON][r.below(10) as usize],
            1 if !r.reals.is_empty() => { let k = r.below(r.reals.len() as u64) as usize; if r.below(2) == 0 { r.reals[k] } else { -r.reals[k] } }
            2 => f64::from_bits(r.next()),
            3 => r.below(12) as f64 - 4.0,
            _ => (r.next() >> 11) as f64 / (1u64 << 53) as f64 * [1.0, 20.0, 1000.0, 7.0][r.below(4) as usize] - [0.0, 10.0, 3.5][r.below(3) as usize],
        }
    } }
    macro_rules! ints { ($($t:ty)*) => { $(impl Gen for $t { fn gen(r: &mut Rng) -> $t {
        match r.below(6) {
            0 => <$t>::MAX, 1 => <$t>::MIN, 2 => r.next() as $t,
            3 if !r.ints.is_empty() => { let k = r.below(r.ints.len() as u64) as usize; r.ints[k] as $t }
            4 => (0 as $t).wrapping_sub(r.below(5) as $t),
            _ => r.below(20) as $t,
        }
    } })* } }
    ints!(usize isize i8 i16 i32 i64 u8 u16 u32 u64);
    impl Gen for bool { fn gen(r: &mut Rng) -> bool { r.below(2) == 0 } }
    impl Gen for () { fn gen(_: &mut Rng) {} }
    impl<T: Gen + Clone> Gen for Vec<T> { fn gen(r: &mut Rng) -> Vec<T> {
        let n = match r.below(12) { 0 => 0, 1 => 1, 2 => 17 + r.below(60), 3 => 4, 4 if r.below(4) == 0 => 200 + r.below(400), _ => r.below(9) };
        let mut v: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
        // closed lists, repeated values
        if n > 1 {
            match r.below(6) {
                0 | 1 => { let k = v.len() - 1; v[k] = v[0].clone(); }
                2 => { let k = 1 + r.below(n - 1) as usize; v[k] = v[k - 1].clone(); }
                _ => {}
            }
        }
        v
    } }
    impl Gen for String { fn gen(r: &mut Rng) -> String {
        let n = [0u64, 1, 5, 12, 40, 300][r.below(6) as usize];
        (0..n).map(|_| match r.below(8) { 0 => '\n', 1 => 'é', 2 => ' ', 3 => '\u{1F980}', _ => char::from(33 + r.below(90) as u8) }).collect()
    } }
}
"""

MAIN = r"""
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let first: u64 = a[2].parse().unwrap();
    let count: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let (mut ints, mut reals) = (Vec::new(), Vec::new());
    if let Ok(t) = std::fs::read_to_string(&a[5]) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("i ") { if let Ok(x) = x.parse::<u64>() { ints.push(x) } }
            if let Some(x) = l.strip_prefix("d ") { if let Ok(x) = x.parse::<f64>() { reals.push(x) } }
        }
    }
    let t0 = std::time::Instant::now();
    let (mut n, mut nt, mut bad) = (0u64, 0u64, 0);
    std::panic::set_hook(Box::new(|_| {}));
    for k in first..first + count {
        if t0.elapsed().as_secs_f64() > secs || bad >= 3 { break; }
        let mut r = vc::Rng { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xD1B54A32D192ED03), ints: ints.clone(), reals: reals.clone() };
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut r)));
        n += 1;
        match got {
            Ok((None, d)) => { if !d.is_empty() { nt += 1; } if k - first < 3 { println!("SAMPLE case={} {}", k, d); } }
            Ok((Some(e), d)) => { bad += 1; println!("FAIL case={} seed={} :: {} :: {}", k, seed, e.replace('\n', "\\n"), d.replace('\n', "\\n")); }
            Err(_) => { bad += 1; println!("FAIL case={} seed={} :: a wrapper panicked", k, seed); }
        }
    }
    println!("DONE {} {}", n, nt);
}
"""


def program(api):
    b = api.b
    fnty = []

    def known(t):
        return t
    o = [CXX, "mod %s {\n use std::pin::Pin; use crate::vc::{self, Enc, Gen, Rng};" % b.mod]
    for s, fs in b.structs.items():
        o.append("#[derive(Debug, Clone)] pub struct %s { %s }" % (s, ", ".join("pub %s: %s" % f for f in fs)))
        o.append("impl Enc for %s { fn enc(&self) -> String { format!(\"%s{{{}}}\", [%s].join(\", \")) } }"
                 % (s, s, ", ".join("format!(\"%s: {}\", self.%s.enc())" % (n, n) for n, _ in fs)))
        o.append("impl Gen for %s { fn gen(r: &mut Rng) -> Self { %s { %s } } }"
                 % (s, s, ", ".join("%s: Gen::gen(r)" % n for n, _ in fs)))
    o.append("pub struct %s { pub(crate) id: u64, pub(crate) pin: std::marker::PhantomPinned }" % api.T)
    o.append("impl %s {" % api.T)
    scripts = []
    for f in b.fns:
        if not f.recv:
            continue
        ps = ", ".join("%s: %s" % p for p in f.params)
        enc = ", ".join("%s.enc()" % n for n, _ in f.params)
        log = "vc::log(format!(\"%s#{}({})\", self.id, ([%s] as [String; %d]).join(\", \")));" % (f.cxx, enc, len(f.params))
        ret = ""
        tail = ""
        if f.ret:
            m = re.match(r"Result\s*<(.*)>$", f.ret)
            if not m:
                raise Unfit("result of " + f.name)
            ret = " -> Result<%s, crate::cxx::Exception>" % m.group(1)
            scripts.append((f.cxx, m.group(1)))
            tail = " SCRIPT_%s.with(|s| s.borrow_mut().take().expect(\"called again\")).map_err(|e| crate::cxx::Exception { text: e.into_boxed_str() })" % f.cxx
        o.append("pub fn %s(self: %s%s%s)%s { %s%s }" % (f.name, f.recv, ", " if ps else "", ps, ret, log, tail))
    o.append("}")
    for n, t in scripts:
        o.append("thread_local! { pub static SCRIPT_%s: std::cell::RefCell<Option<Result<%s, String>>> = std::cell::RefCell::new(None); }" % (n, t))
    for f in b.fns:
        if f.recv:
            continue
        if f.ret and "UniquePtr" in f.ret and not f.params:
            o.append("pub fn %s() -> crate::cxx::UniquePtr<%s> { let id = vc::next(); vc::log(format!(\"%s#{}\", id)); "
                     "crate::cxx::UniquePtr::new(%s { id, pin: std::marker::PhantomPinned }) }" % (f.name, api.T, f.cxx, api.T))
        elif not f.ret and not f.params:
            o.append("pub fn %s() { vc::log(\"%s\".to_string()); }" % (f.name, f.cxx))
        else:
            raise Unfit("operation " + f.name)
    o.append("}")
    o.append(api.rest)
    # the cases
    maker = next((f.cxx for f in b.fns if not f.recv and f.ret and "UniquePtr" in f.ret), None)
    arms, fns, mk = [], [], []
    for f in api.fns:
        if not api.contract(f):
            continue
        decl, pre, args, enc = [], [], [], []
        for i, (n, t) in enumerate(f.params):
            ref, ty = api.deref("a", t)
            m = re.match(r"\[(.*)\]$", ty)
            if m:
                ty = "Vec<%s>" % m.group(1)
            mut = re.match(r"&\s*('\w+\s+)?mut\b", t)
            if re.match(r"(unsafe )?fn\s*\(", ty):
                inner = split_top(re.search(r"\((.*)\)", ty).group(1))
                k = len(fns)
                for q in (0, 1):
                    fns.append("fn vc_cb%d(%s) { crate::vc::log(\"callback%d\".to_string()); }" % (
                        k + q, ", ".join("_%d: %s" % (j, x.split(":", 1)[-1] if re.match(r"\w+\s*:[^:]", x) else x)
                                         for j, x in enumerate(inner)), k + q))
                decl.append("let a%d: %s = if r.below(2) == 0 { vc_cb%d } else { vc_cb%d };" % (i, ty, k, k + 1))
            else:
                decl.append("let %sa%d: %s = vc::Gen::gen(r);" % ("mut " if mut else "", i, ty))
            enc.append("a%d.enc()" % i)
            args.append(("&mut a%d" if mut else "&a%d" if ref == "*a" else "a%d") % i)
        al = ", ".join(args)
        el = "([%s] as [String; %d]).join(\", \")" % (", ".join(enc), len(enc))
        op = api.cxx.get(f.name)
        cn = api.alias.get(f.name, f.name)
        if f.impl is None:
            arms.append("{ %s let what = format!(\"%s({})\", %s); d.push(what); %s(%s); let g = vc::take(); if g != vec![\"%s\".to_string()] "
                        "{ return (Some(format!(\"%s reached {:?}\", g)), d.join(\"; \")); } }"
                        % (" ".join(decl), f.name, el, f.name, al, cn, f.name))
        elif not f.recv:
            call = "<%s as Default>::default()" % api.W if f.trait else "%s::%s()" % (api.W, f.name)
            mk.append(call)
        elif op.ret:
            arms.append("{ %s let what = format!(\"%s#{}({})\", id, %s); d.push(what.clone());\n"
                        " let t: Result<%s, String> = if r.below(2) == 0 { Ok(vc::Gen::gen(r)) } else { Err(vc::Gen::gen(r)) };\n"
                        " let want = match &t { Ok(x) => format!(\"Ok {}\", x.enc()), Err(e) => format!(\"Err {:?}\", e) };\n"
                        " %s::SCRIPT_%s.with(|s| *s.borrow_mut() = Some(t));\n"
                        " let got = match w.%s(%s) { Ok(x) => format!(\"Ok {}\", x.enc()), Err(e) => format!(\"Err {:?}\", e) };\n"
                        " let g = vc::take(); if g != vec![what] { return (Some(format!(\"%s reached {:?}\", g)), d.join(\"; \")); }\n"
                        " if got != want { return (Some(format!(\"%s gave {} for {}\", got, want)), d.join(\"; \")); } }"
                        % (" ".join(decl), cn, el, re.match(r"Result\s*<(.*)>$", api.qual(op.ret)).group(1), b.mod, op.cxx, f.name, al, f.name, f.name))
        else:
            arms.append("{ %s let what = format!(\"%s#{}({})\", id, %s); d.push(what.clone()); w.%s(%s);\n"
                        " let g = vc::take(); if g != vec![what] { return (Some(format!(\"%s reached {:?}\", g)), d.join(\"; \")); } }"
                        % (" ".join(decl), cn, el, f.name, al, f.name))
    if not mk or not arms:
        raise Unfit("no constructor or no operation")
    o += fns
    o.append("fn vc_make(r: &mut vc::Rng) -> (%s, Vec<String>) { let w = match r.below(%d) { %s }; (w, vc::take()) }"
             % (api.W, len(mk), " ".join("%s => %s," % (i if i < len(mk) - 1 else "_", c) for i, c in enumerate(mk))))
    o.append("fn one(r: &mut vc::Rng) -> (Option<String>, String) { use crate::vc::Enc; vc::take(); let mut ws = Vec::new();\n"
             " for _ in 0..2 { let (w, g) = vc_make(r); if g.len() != 1 || !g[0].starts_with(\"%s#\") { return (Some(format!(\"a new builder reached {:?}\", g)), String::new()); }\n"
             "   let id: u64 = g[0][%d..].parse().unwrap(); ws.push((w, id)); }\n"
             " let mut d: Vec<String> = Vec::new();\n for _ in 0..(1 + r.below(12)) { let k = r.below(2) as usize; let id = ws[k].1; let w = &mut ws[k].0;\n"
             "  match r.below(%d) { %s }\n }\n (None, d.join(\"; \")) }"
             % (maker, len(maker) + 1, len(arms), "\n".join("%s => %s," % (i if i < len(arms) - 1 else "_", c) for i, c in enumerate(arms))))
    o.append(MAIN)
    return "\n".join(o)


class RustHarness:
    def __init__(self, spec, work, repo):
        self.repo, self.work = repo, work
        self.exe = os.path.join(work, "harness")
        self.rc, self.err = None, ""

    def build(self):
        try:
            t = program(Api(self.repo))
        except (Unfit, BridgeError, OSError) as e:
            self.rc, self.err = 1, str(e)
            return
        p = os.path.join(self.work, "api.rs")
        with open(p, "w") as f:
            f.write(t)
        r = subprocess.run(["rustc", "--edition", "2021", "-O", "-C", "debug-assertions=on", "-C", "codegen-units=4",
                            "--crate-name", "vc_api", "-o", self.exe, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, cwd=self.work)
        self.rc, self.err = r.returncode, r.stdout[-3000:]

    def run(self, seed, first, count, seconds, hints):
        try:
            p = subprocess.run([self.exe, str(seed), str(first), str(count), str(seconds), hints],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 100, cwd=self.work)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return 99, (e.stdout or b"").decode(errors="replace")
