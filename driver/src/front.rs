//! The surroundings of the front ends: JavaScript and Python objects, the command line and its streams.
//!
//! An object is its text, its properties and its kind (0 text, 1 bytes, 2 neither).
use crate::interp::*;
use crate::models::Key;
use crate::term::*;
use crate::value::*;
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

type R<'tcx> = Vec<(State<'tcx>, V)>;

fn object(text: Seq, kind: i128) -> V {
    let none = Seq { len: cst(0), items: Items::Known(Rc::new(vec![])), cap: None, last: None };
    agg(vec![V::Seq(Rc::new(text)), V::Seq(Rc::new(none)), V::I(cst(kind), USIZE)])
}
/// the bytes a text is known to start with
fn start(c: C) -> Vec<u8> {
    match cnode(c) {
        CN::Bytes(b) => b.to_vec(),
        CN::App(f, cs, ts) if &*f == "cat" => {
            let mut b = start(cs[0]);
            if as_cst(ts[0]) == Some(b.len() as i128) {
                b.extend(start(cs[1]));
            }
            b
        }
        _ => vec![],
    }
}
fn parts(v: &V) -> Option<(Seq, Seq, i128)> {
    if let V::Agg(f) = v {
        if let [V::Seq(t), V::Seq(p), V::I(k, _)] = &f[..] {
            return Some(((**t).clone(), (**p).clone(), as_cst(*k)?));
        }
    }
    None
}
impl<'tcx> Interp<'tcx> {
    fn behind(&mut self, st: &mut State<'tcx>, v: &V) -> V {
        match v {
            V::P(p) if p.sl.is_none() => {
                let x = self.read(st, p);
                self.behind(st, &x)
            }
            _ => v.clone(),
        }
    }
    /// a text all of whose bytes are known
    pub fn plain_text(&mut self, st: &mut State<'tcx>, v: &V) -> Option<String> {
        let t = self.text_of(st, v)?;
        let b = self.long_text(st, &t)?;
        let b = b.iter().map(|t| as_cst(st.facts.simp(*t)).map(|x| x as u8)).collect::<Option<Vec<u8>>>()?;
        String::from_utf8(b).ok()
    }
    /// everything a value consists of, if all of it is known
    fn deep(&mut self, st: &mut State<'tcx>, v: &V, out: &mut String) -> Option<()> {
        use std::fmt::Write;
        match v {
            V::Top | V::It(_) => return None,
            V::I(t, _) | V::Fl(t) => {
                let t = st.facts.simp(*t);
                match as_cst(t) {
                    Some(n) => write!(out, "{n}").ok()?,
                    None => write!(out, "{t:?}").ok()?,
                }
            }
            V::Agg(f) => {
                out.push('(');
                for x in f.iter() {
                    self.deep(st, x, out)?;
                    out.push(',');
                }
                out.push(')');
            }
            V::En(e) => {
                let d = as_cst(st.facts.simp(e.d))?;
                write!(out, "{d}").ok()?;
                if let Some((_, f)) = e.vars.iter().find(|(i, _)| *i as i128 == d) {
                    let f = f.clone();
                    self.deep(st, &V::Agg(f), out)?;
                }
            }
            V::P(p) if p.sl.is_some() => {
                let s = self.text_of(st, v)?;
                self.deep(st, &V::Seq(Rc::new(s)), out)?;
            }
            V::P(p) => {
                let x = self.read(st, p);
                self.deep(st, &x, out)?;
            }
            V::Seq(s) => {
                let n = as_cst(st.facts.simp(s.len))?;
                out.push('[');
                for i in 0..n {
                    let x = self.elem_v(st, s, i);
                    self.deep(st, &x, out)?;
                    out.push(',');
                }
                out.push(']');
            }
        }
        Some(())
    }
    /// a stand-in for the text a serialiser makes: equal for equal values
    pub fn serialised(&mut self, st: &mut State<'tcx>, how: &str, v: &V) -> Option<Seq> {
        use std::hash::{Hash, Hasher};
        let mut t = String::new();
        self.deep(st, v, &mut t)?;
        let (mut a, mut b) = (std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new());
        t.hash(&mut a);
        (1u8, &t).hash(&mut b);
        Some(str_seq(format!("<{how} {:016x}{:016x} {}>", a.finish(), b.finish(), t.len()).as_bytes()))
    }
    fn print(&mut self, mut st: State<'tcx>, to: &str, args: &V) -> R<'tcx> {
        let (sink, _) = self.new_sink(&mut st);
        if let Some(v) = st.ghost.get(to).cloned() {
            self.write(&mut st, &sink, v);
        }
        let v = self.fmt_write(st, &sink, args);
        v.into_iter()
            .map(|mut s| {
                let r = self.read(&mut s, &sink);
                Rc::make_mut(&mut s.ghost).insert(to.to_string(), r);
                (s, unit())
            })
            .collect()
    }
    /// the vocabulary of specifications of front ends
    pub fn front_spec(&mut self, mut st: State<'tcx>, name: &str, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
        let v = match name {
            "object" => {
                let t = self.text_of(&mut st, &args[0])?;
                let V::I(k, _) = &args[1] else { return None };
                object(t, as_cst(st.facts.simp(*k))?)
            }
            "property" => {
                let o = self.behind(&mut st, &args[0]);
                let n = self.plain_text(&mut st, &args[1])?;
                match parts(&o) {
                    Some((t, _, _)) if n.is_empty() => V::Seq(Rc::new(t)),
                    Some((_, p, _)) => {
                        let k = as_cst(p.len)?;
                        let mut r = V::Seq(Rc::new(str_seq(b"")));
                        for i in 0..k {
                            if let V::Agg(f) = self.elem_v(&mut st, &p, i) {
                                if self.plain_text(&mut st, &f[0]).as_deref() == Some(&n) {
                                    r = f[1].clone();
                                }
                            }
                        }
                        r
                    }
                    None => self.materialize(&mut st, ret, "property"),
                }
            }
            "mentions" => {
                // in what is known of the text from its start
                let t = self.text_of(&mut st, &args[0])?;
                let n = self.plain_text(&mut st, &args[1])?;
                let all = as_cst(st.facts.simp(t.len));
                let b = match (&t.items, self.plain_text(&mut st, &V::Seq(Rc::new(t.clone())))) {
                    (_, Some(t)) => t.into_bytes(),
                    (Items::Content(c, _), None) => start(*c),
                    _ => vec![],
                };
                let found = b.windows(n.len().max(1)).any(|w| w == n.as_bytes());
                if found || all == Some(b.len() as i128) {
                    V::I(cst(found as i128), BOOL)
                } else {
                    V::I(fresh("mentions", 0, 1), BOOL)
                }
            }
            "supply" => {
                let n = self.plain_text(&mut st, &args[0])?;
                Rc::make_mut(&mut st.ghost).insert(n, args[1].clone());
                unit()
            }
            "printed" => {
                let n = self.plain_text(&mut st, &args[0])?;
                st.ghost.get(&n).cloned().unwrap_or_else(|| V::Seq(Rc::new(str_seq(b""))))
            }
            "serialised" => {
                let n = self.plain_text(&mut st, &args[0])?;
                match self.serialised(&mut st, &n, &args[1]) {
                    Some(s) => V::Seq(Rc::new(s)),
                    None => self.materialize(&mut st, ret, "serialised"),
                }
            }
            _ => return None,
        };
        Some(vec![(st, v)])
    }
    pub fn front_call(&mut self, mut st: State<'tcx>, kd: &Key<'tcx>, ki: &Key<'tcx>, ga: ty::GenericArgsRef<'tcx>, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
        let name = kd.name.as_str();
        let tr = kd.trait_.as_deref();
        let one = |st: State<'tcx>, v: V| Some(vec![(st, v)]);
        if std::env::var("VFRONT").is_ok() {
            eprintln!("FRONT {} {} {:?} {:?}", ki.krate, ki.full, tr, name);
        }
        match ki.krate.as_str() {
            "wasm_bindgen" | "js_sys" => match (name, tr) {
                ("from_str", None) | ("new", None) if args.len() == 1 => {
                    let t = self.text_of(&mut st, &args[0])?;
                    one(st, object(t, 0))
                }
                ("from_f64", None) => one(st, object(str_seq(b"number"), 2)),
                ("set_name", None) => one(st, unit()),
                ("from" | "into", Some(_)) if args.len() == 1 && parts(&args[0]).is_some() => one(st, args[0].clone()),
                ("as_ref" | "deref" | "unchecked_ref", _) => one(st, args[0].clone()),
                ("set", None) if args.len() == 3 => {
                    let V::P(p) = &args[0] else { return None };
                    let o = self.behind(&mut st, &args[0]);
                    let k = self.behind(&mut st, &args[1]);
                    let v = self.behind(&mut st, &args[2]);
                    let ((t, mut props, kind), (k, _, _), (v, _, _)) = (parts(&o)?, parts(&k)?, parts(&v)?);
                    if let Items::Known(f) = &props.items {
                        let mut f = f.to_vec();
                        f.push(agg(vec![V::Seq(Rc::new(k)), V::Seq(Rc::new(v))]));
                        props.len = cst(f.len() as i128);
                        props.items = Items::Known(Rc::new(f));
                    }
                    let p = p.clone();
                    self.write(&mut st, &p, agg(vec![V::Seq(Rc::new(t)), V::Seq(Rc::new(props)), V::I(cst(kind), USIZE)]));
                    one(st, ok(V::I(cst(1), BOOL)))
                }
                _ => None,
            },
            "serde_wasm_bindgen" if name == "to_value" => {
                let s = self.serialised(&mut st, "object", &args[0])?;
                one(st, ok(object(s, 2)))
            }
            "serde_json" | "serde_yaml" if matches!(name, "to_string" | "to_string_pretty") && tr.is_none() => {
                let how = format!("{}::{name}", ki.krate);
                let s = self.serialised(&mut st, &how, &args[0])?;
                one(st, ok(V::Seq(Rc::new(s))))
            }
            "pyo3" => match (name, tr) {
                ("new", None) if args.len() == 1 && ki.head == "PyErr" => {
                    let t = self.text_of(&mut st, &args[0])?;
                    let class = ga.types().next().map(|t| t.to_string()).unwrap_or_default();
                    let class = class.rsplit("::").next().unwrap_or_default().to_string();
                    let props = Seq { len: cst(1), items: Items::Known(Rc::new(vec![agg(vec![V::Seq(Rc::new(str_seq(b"class"))), V::Seq(Rc::new(str_seq(class.as_bytes())))])])), cap: None, last: None };
                    one(st, agg(vec![V::Seq(Rc::new(t)), V::Seq(Rc::new(props)), V::I(cst(2), USIZE)]))
                }
                ("extract", _) => {
                    let o = self.behind(&mut st, &args[0]);
                    let (t, _, k) = parts(&o)?;
                    let ty::Adt(_, ra) = ret.kind() else { return None };
                    let wants = match ra.type_at(0).kind() {
                        ty::Adt(a, _) if self.tcx.item_name(a.did()).as_str() == "String" => 0,
                        ty::Adt(a, _) if self.tcx.item_name(a.did()).as_str() == "Vec" => 1,
                        _ => return None,
                    };
                    one(st, if wants == k { ok(V::Seq(Rc::new(t))) } else { err(object(str_seq(b"wrong type"), 2)) })
                }
                ("import", _) => {
                    let t = self.text_of(&mut st, args.last()?)?;
                    one(st, ok(object(t, 2)))
                }
                ("call_method1", _) => {
                    let m = self.behind(&mut st, &args[0]);
                    let (m, _, _) = parts(&m)?;
                    let m = self.plain_text(&mut st, &V::Seq(Rc::new(m)))?;
                    let f = self.plain_text(&mut st, &args[1])?;
                    let V::Agg(a) = &args[2] else { return None };
                    let t = self.text_of(&mut st, a.first()?)?;
                    if m != "json" || f != "loads" {
                        return None;
                    }
                    one(st, ok(object(t, 2)))
                }
                ("unbind" | "into_any" | "bind" | "clone" | "deref" | "as_any", _) => one(st, args[0].clone()),
                _ => None,
            },
            _ if name == "parse" && tr == Some("Parser") && args.is_empty() => {
                let v = st.ghost.get("arguments").cloned()?;
                one(st, v)
            }
            "hex" if name == "decode" && tr.is_none() && args.len() == 1 => {
                let t = self.plain_text(&mut st, &args[0])?;
                let digits = t.chars().map(|c| c.to_digit(16)).collect::<Option<Vec<u32>>>();
                let v = match digits {
                    Some(d) if d.len() % 2 == 0 => ok(V::Seq(Rc::new(str_seq(&d.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect::<Vec<u8>>())))),
                    _ => err(object(str_seq(b"no hexadecimal text"), 2)),
                };
                one(st, v)
            }
            "terminal_size" if name == "terminal_size" => {
                let v = match st.ghost.get("columns").cloned() {
                    Some(c) => some(agg(vec![agg(vec![c]), agg(vec![V::I(cst(24), IK { bits: 16, signed: false })])])),
                    None => none(),
                };
                one(st, v)
            }
            "std" => match name {
                "_print" => Some(self.print(st, "stdout", &args[0])),
                "_eprint" => Some(self.print(st, "stderr", &args[0])),
                "is_terminal" => {
                    let b = st.ghost.contains_key("columns") as i128;
                    one(st, V::I(cst(b), BOOL))
                }
                "read_to_string" if tr.is_none() && args.len() == 1 => {
                    let v = match st.ghost.get("file").cloned() {
                        Some(V::Seq(s)) => ok(V::Seq(s)),
                        _ => {
                            let e = self.materialize(&mut st, ret, "read");
                            match e {
                                V::En(e) => V::En(Rc::new(En { d: cst(1), vars: e.vars.clone() })),
                                e => e,
                            }
                        }
                    };
                    one(st, v)
                }
                _ => None,
            },
            _ => None,
        }
    }
}
