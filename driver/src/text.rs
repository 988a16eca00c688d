//! Text: what the formatting machinery writes, as contents of strings.
//!
//! Used when a specification asks for it (`exact_text`). A value whose text is not known to the analyser
//! appends an unknown piece, so every result covers the real text.
use crate::bits;
use crate::interp::*;
use crate::models::*;
use crate::term::*;
use crate::value::*;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fo {
    pub flags: u32,
    pub width: Option<T>,
    pub prec: Option<T>,
}
impl Fo {
    pub fn plain() -> Fo {
        Fo { flags: ' ' as u32 | 3 << 29, width: None, prec: None }
    }
    fn is_plain(&self) -> bool {
        self.flags & 0x1FFF_FFFF == ' ' as u32 && self.width.is_none() && self.prec.is_none()
    }
}
fn decimal(n: i128, f: &Fo, up: Option<bool>) -> Option<Vec<u8>> {
    let w = match f.width {
        Some(w) => as_cst(w)? as usize,
        None => 0,
    };
    if f.prec.is_some() || f.flags & (1 << 21) != 0 || f.flags & (1 << 23) != 0 {
        return None;
    }
    let s = match up {
        None => n.to_string(),
        Some(true) => format!("{n:X}"),
        Some(false) => format!("{n:x}"),
    };
    if n < 0 && (up.is_some() || w > 0) {
        return None;
    }
    let mut v = s.into_bytes();
    if v.len() < w {
        let pad = w - v.len();
        if f.flags & (1 << 24) != 0 {
            let mut z = vec![b'0'; pad];
            z.extend(v);
            v = z;
        } else {
            return pad_with(v, pad, f, 1);
        }
    }
    Some(v)
}
/// default: 0 left, 1 right
fn pad_with(v: Vec<u8>, pad: usize, f: &Fo, default: u32) -> Option<Vec<u8>> {
    let fill = char::from_u32(f.flags & 0x1F_FFFF)?;
    let align = match f.flags >> 29 & 3 {
        3 => default,
        a => a,
    };
    let (l, r) = match align {
        0 => (0, pad),
        1 => (pad, 0),
        _ => (pad / 2, pad - pad / 2),
    };
    let mut o: Vec<u8> = fill.to_string().repeat(l).into_bytes();
    o.extend(v);
    o.extend(fill.to_string().repeat(r).into_bytes());
    Some(o)
}
pub fn bytes_of(s: &Seq, st: &State<'_>) -> Option<Vec<u8>> {
    let n = as_cst(st.facts.simp(s.len))?;
    if n > 100_000 {
        return None;
    }
    match &s.items {
        Items::Content(c, _) => match cnode(*c) {
            CN::Bytes(b) if b.len() as i128 >= n => Some(b[..n as usize].to_vec()),
            _ => {
                let v: Option<Vec<u8>> = (0..n).map(|i| as_cst(st.facts.simp(read_content(*c, cst(i), IK { bits: 8, signed: false }))).map(|x| x as u8)).collect();
                v
            }
        },
        Items::Known(f) if f.len() as i128 >= n => f[..n as usize].iter().map(|v| match v { V::I(t, _) => as_cst(st.facts.simp(*t)).map(|x| x as u8), _ => None }).collect(),
        _ => None,
    }
}
impl<'tcx> Interp<'tcx> {
    /// the text behind a reference (to a reference) to a string
    pub fn text_of(&mut self, st: &mut State<'tcx>, v: &V) -> Option<Seq> {
        match v {
            V::Seq(s) => Some((**s).clone()),
            V::P(p) if p.sl.is_some() => {
                let (q, o, l) = self.as_slice(st, v)?;
                Some(self.subseq(st, &q, o, l))
            }
            V::P(p) => {
                let x = self.read(st, p);
                self.text_of(st, &x)
            }
            _ => None,
        }
    }
    pub fn append(&mut self, st: &mut State<'tcx>, sink: &Ptr, s: &Seq) {
        let old = self.read(st, sink);
        let n = match old {
            V::Seq(o) => {
                let cap = o.cap;
                Seq { cap, ..self.concat(st, &o, s) }
            }
            _ => Seq { len: fresh("slen", 0, i64::MAX as i128), items: Items::Content(fresh_content("str"), U8), cap: None, last: None },
        };
        self.write(st, sink, V::Seq(Rc::new(n)));
    }
    fn append_unknown(&mut self, st: &mut State<'tcx>, sink: &Ptr) {
        let V::Seq(s) = self.opaque_string(st) else { unreachable!() };
        self.append(st, sink, &s);
    }
    /// the text sink a formatter writes to, with its options
    pub fn formatter(&mut self, st: &mut State<'tcx>, f: &V) -> Option<(Ptr, Fo)> {
        let V::P(p) = f else { return None };
        let V::Agg(a) = self.read(st, p) else { return None };
        match (a.first(), a.get(1)) {
            (Some(V::P(s)), Some(V::I(t, _))) if a.len() == 2 => {
                let o = *self.fmt_opts.get(as_cst(*t)? as usize)?;
                Some(((**s).clone(), o))
            }
            _ => None,
        }
    }
    fn new_formatter(&mut self, st: &mut State<'tcx>, sink: &Ptr, o: Fo) -> V {
        let i = self.fmt_opts.iter().position(|x| *x == o).unwrap_or_else(|| {
            self.fmt_opts.push(o);
            self.fmt_opts.len() - 1
        });
        let v = V::Agg(vec![V::P(Rc::new(sink.clone())), V::I(cst(i as i128), U8)].into());
        let ty = self.tcx.types.unit;
        let id = self.alloc(st, ty, v);
        V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: None, mt: true }))
    }
    pub fn fmt_argument(&mut self, name: &str, t: Ty<'tcx>, v: &V) -> V {
        let k = (name.to_string(), t);
        let i = self.fmt_kinds.iter().position(|x| *x == k).unwrap_or_else(|| {
            self.fmt_kinds.push(k);
            self.fmt_kinds.len() - 1
        });
        V::Agg(vec![V::I(cst(i as i128), USIZE), v.clone()].into())
    }
    /// write the text of format arguments
    pub fn fmt_write(&mut self, mut st: State<'tcx>, sink: &Ptr, args: &V) -> Vec<State<'tcx>> {
        let parts = match args {
            V::Agg(a) => a.clone(),
            _ => {
                self.append_unknown(&mut st, sink);
                return vec![st];
            }
        };
        if parts.len() == 1 {
            match self.as_slice(&mut st, &parts[0]) {
                Some((p, o, l)) => {
                    let s = self.subseq(&mut st, &p, o, l);
                    self.append(&mut st, sink, &s);
                }
                None => self.append_unknown(&mut st, sink),
            }
            return vec![st];
        }
        let tpl = self.as_slice(&mut st, &parts[0]).and_then(|(p, o, l)| {
            let s = self.subseq(&mut st, &p, o, l);
            bytes_of(&s, &st)
        });
        let vals = self.as_slice(&mut st, &parts[1]).and_then(|(p, o, l)| {
            let s = self.subseq(&mut st, &p, o, l);
            let n = as_cst(st.facts.simp(s.len))?;
            Some((0..n).map(|i| self.elem_v(&mut st, &s, i)).collect::<Vec<V>>())
        });
        let (Some(tpl), Some(vals)) = (tpl, vals) else {
            self.append_unknown(&mut st, sink);
            return vec![st];
        };
        let mut states = vec![st];
        let (mut i, mut next) = (0usize, 0usize);
        let word = |i: &mut usize| {
            let w = tpl.get(*i).copied().unwrap_or(0) as usize | (tpl.get(*i + 1).copied().unwrap_or(0) as usize) << 8;
            *i += 2;
            w
        };
        while i < tpl.len() {
            let b = tpl[i];
            i += 1;
            if b == 0 {
                break;
            }
            if b < 0x80 || b == 0x80 {
                let n = if b == 0x80 { word(&mut i) } else { b as usize };
                let lit = str_seq(&tpl[i..(i + n).min(tpl.len())]);
                i += n;
                for s in states.iter_mut() {
                    self.append(s, sink, &lit);
                }
                continue;
            }
            let mut o = Fo::plain();
            if b & 1 != 0 {
                o.flags = word(&mut i) as u32 | (word(&mut i) as u32) << 16;
            }
            let num = |i: &mut usize, ind: bool, ip: &mut Self, st: &mut State<'tcx>| -> T {
                let w = word(i);
                if !ind {
                    return cst(w as i128);
                }
                if let Some(V::Agg(a)) = vals.get(w) {
                    if let Some(V::P(p)) = a.get(1) {
                        if let V::I(t, _) = ip.read(st, p) {
                            return t;
                        }
                    }
                }
                fresh("width", 0, 65535)
            };
            // indirect widths are read in the first state: their variables are the same in all of them
            if b & 2 != 0 {
                o.width = Some(num(&mut i, b & 16 != 0, self, &mut states[0]));
            }
            if b & 4 != 0 {
                o.prec = Some(num(&mut i, b & 32 != 0, self, &mut states[0]));
            }
            if b & 8 != 0 {
                next = word(&mut i);
            }
            let arg = vals.get(next).cloned().unwrap_or(V::Top);
            next += 1;
            let kind = match &arg {
                V::Agg(a) if a.len() == 2 => match &a[0] {
                    V::I(t, _) => as_cst(*t).and_then(|k| self.fmt_kinds.get(k as usize).cloned()).map(|k| (k, a[1].clone())),
                    _ => None,
                },
                _ => None,
            };
            let mut out = vec![];
            for mut s in states {
                match &kind {
                    Some(((name, t), v)) => out.extend(self.fmt_value(s, name, *t, v, o, sink)),
                    None => {
                        self.append_unknown(&mut s, sink);
                        out.push(s);
                    }
                }
            }
            states = out;
            if states.len() > 1 {
                states = self.merge_states(states);
            }
            if states.is_empty() {
                return states;
            }
        }
        states
    }
    /// merge states that differ only in what they hold
    fn merge_states(&mut self, v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        let r = self.merge_returns(v.into_iter().map(|s| (s, unit())).collect());
        r.into_iter().map(|x| x.0).collect()
    }
    /// write the text of one value; `v` points to it
    pub fn fmt_value(&mut self, mut st: State<'tcx>, name: &str, t: Ty<'tcx>, v: &V, o: Fo, sink: &Ptr) -> Vec<State<'tcx>> {
        let tcx = self.tcx;
        let (mut t, mut v) = (t, v.clone());
        while let ty::Ref(_, x, _) = t.kind() {
            t = *x;
            v = match &v {
                V::P(p) => self.read(&mut st, p),
                _ => V::Top,
            };
        }
        let whole = |ip: &mut Self, mut st: State<'tcx>| {
            ip.append_unknown(&mut st, sink);
            vec![st]
        };
        if t.is_str() || self.kind_of(t) == Special::Str {
            if name == "new_display" {
                let Some((p, off, l)) = self.as_slice(&mut st, &v) else { return whole(self, st) };
                let s = self.subseq(&mut st, &p, off, l);
                return self.pad_text(st, &s, o, sink);
            }
            if name == "new_debug" && o.is_plain() {
                if let Some(t) = self.plain_text(&mut st, &v) {
                    self.append(&mut st, sink, &str_seq(format!("{t:?}").as_bytes()));
                    return vec![st];
                }
            }
            return whole(self, st);
        }
        let val = match &v {
            V::P(p) => self.read(&mut st, p),
            _ => V::Top,
        };
        if matches!(t.kind(), ty::Adt(a, _) if tcx.item_name(a.did()).as_str() == "Cow") && name == "new_display" {
            if let V::En(e) = &val {
                let d = as_cst(st.facts.simp(e.d));
                let f = e.vars.iter().find(|(i, _)| Some(*i as i128) == d).and_then(|(_, f)| f.first().cloned());
                if let Some(s) = f.and_then(|f| self.text_of(&mut st, &f)) {
                    return self.pad_text(st, &s, o, sink);
                }
            }
            return whole(self, st);
        }
        if t.is_bool() && matches!(name, "new_display" | "new_debug") {
            let V::I(c, _) = val else { return whole(self, st) };
            let (a, b) = self.fork(st, c);
            let mut out = vec![];
            if let Some(s) = a {
                out.extend(self.pad_text(s, &str_seq(b"true"), o, sink));
            }
            if let Some(s) = b {
                out.extend(self.pad_text(s, &str_seq(b"false"), o, sink));
            }
            return out;
        }
        if let (true, "new_debug", V::I(c, _)) = (t.is_char(), name, &val) {
            if let Some(c) = as_cst(st.facts.simp(*c)).and_then(|c| char::from_u32(c as u32)) {
                return self.pad_text(st, &str_seq(format!("{c:?}").as_bytes()), o, sink);
            }
        }
        if t.is_char() && name == "new_display" {
            let V::I(c, _) = val else { return whole(self, st) };
            let s = char_seq(&st, c);
            return match s {
                Some(s) => self.pad_text(st, &s, o, sink),
                None => whole(self, st),
            };
        }
        if matches!(t.kind(), ty::Float(ty::FloatTy::F64)) && name == "new_display" {
            let V::Fl(x) = val else { return whole(self, st) };
            let (x, known) = match node(x) {
                Node::FInt(i) => (mk_fint(st.facts.simp(i)), as_cst(i).is_some()),
                _ => (x, true),
            };
            let prec = o.prec.map(|p| as_cst(st.facts.simp(p)));
            let plain = Fo { prec: None, ..o }.is_plain() || Fo { prec: None, flags: o.flags & 0xE01F_FFFF, ..o }.is_plain();
            let (Some(f), true, false) = (fconst_of(x), plain, prec == Some(None)) else { return whole(self, st) };
            let show = |f: f64| match prec {
                Some(Some(p)) => format!("{f:.*}", p as usize),
                _ => format!("{f}"),
            };
            if f == 0.0 && !known {
                // either sign of zero
                let (a, b) = self.fork(st, fresh("sign", 0, 1));
                let mut out = vec![];
                for (s, f) in [(a, 0.0), (b, -0.0)] {
                    if let Some(mut s) = s {
                        self.append(&mut s, sink, &str_seq(show(f).as_bytes()));
                        out.push(s);
                    }
                }
                return out;
            }
            self.append(&mut st, sink, &str_seq(show(f).as_bytes()));
            return vec![st];
        }
        if t.is_integral() {
            let V::I(x, _) = val else { return whole(self, st) };
            let x = st.facts.simp(x);
            let up = match name {
                "new_display" | "new_debug" => None,
                "new_upper_hex" => Some(true),
                "new_lower_hex" => Some(false),
                _ => return whole(self, st),
            };
            if let Some(c) = as_cst(x) {
                if let Some(b) = decimal(c, &o, up) {
                    self.append(&mut st, sink, &str_seq(&b));
                    return vec![st];
                }
                return whole(self, st);
            }
            let (l, h) = st.facts.range(x);
            if let (Some(up), Some(w)) = (up, o.width.and_then(as_cst)) {
                let zero = o.flags & (1 << 24) != 0 && o.flags & (1 << 23) == 0 && o.flags & (1 << 21) == 0 && o.prec.is_none();
                if zero && l >= 0 && w <= 30 && h < 1i128 << (4 * w).min(120) {
                    let digits: Vec<V> = (0..w).map(|i| V::I(hex_digit(bits::field(x, (4 * (w - 1 - i)) as u8, 4), up), U8)).collect();
                    let s = Seq { len: cst(w), items: Items::Known(Rc::new(digits)), cap: None, last: None };
                    self.append(&mut st, sink, &s);
                    return vec![st];
                }
            }
            if o.is_plain() {
                // an unknown number: its text is a function of it
                let f = match up {
                    None => "dec",
                    Some(true) => "HEX",
                    Some(false) => "hex",
                };
                let len = mk(Node::App { f: format!("{f}len").into(), args: Rc::from([x]), lo: 1, hi: 40 });
                let s = Seq { len, items: Items::Content(mkc(CN::App(f.into(), Rc::from([]), Rc::from([x]))), U8), cap: None, last: None };
                self.append(&mut st, sink, &s);
                return vec![st];
            }
            return whole(self, st);
        }
        let tr = match name {
            "new_display" => "Display",
            "new_debug" => "Debug",
            "new_lower_hex" => "LowerHex",
            "new_upper_hex" => "UpperHex",
            _ => return whole(self, st),
        };
        let local = match t.kind() {
            ty::Adt(a, _) => is_workspace(tcx.crate_name(a.did().krate).as_str()),
            _ => false,
        };
        if !local {
            return whole(self, st);
        }
        let sym = rustc_span::Symbol::intern(tr);
        let Some(tid) = tcx.get_diagnostic_item(sym).or_else(|| tcx.all_traits_including_private().find(|x| tcx.item_name(*x) == sym && tcx.crate_name(x.krate).as_str() == "core")) else { return whole(self, st) };
        let Some(m) = tcx.associated_items(tid).in_definition_order().find(|x| x.is_fn()) else { return whole(self, st) };
        let ga = tcx.mk_args(&[t.into()]);
        let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m.def_id, ga) else { return whole(self, st) };
        if self.stack.len() > 60 {
            return whole(self, st);
        }
        let f = self.new_formatter(&mut st, sink, o);
        self.exec_fn(st, i, vec![v, f]).into_iter().map(|x| x.0).collect()
    }
    /// text with the padding a placeholder asks for
    pub fn pad_text(&mut self, mut st: State<'tcx>, s: &Seq, o: Fo, sink: &Ptr) -> Vec<State<'tcx>> {
        if o.width.is_none() && o.prec.is_none() {
            self.append(&mut st, sink, s);
            return vec![st];
        }
        if let (Some(b), None, Some(w)) = (bytes_of(s, &st), o.prec, o.width.and_then(|w| as_cst(st.facts.simp(w)))) {
            if let Ok(x) = std::str::from_utf8(&b) {
                let n = x.chars().count();
                let r = if n < w as usize { pad_with(b.clone(), w as usize - n, &o, 0) } else { Some(b.clone()) };
                if let Some(r) = r {
                    self.append(&mut st, sink, &str_seq(&r));
                    return vec![st];
                }
            }
        }
        self.append_unknown(&mut st, sink);
        vec![st]
    }
    /// the formatting functions; None: not one of them, or its target is unknown
    pub fn text_call(&mut self, mut st: State<'tcx>, full: &str, name: &str, trait_: Option<&str>, self_ty: Option<Ty<'tcx>>, ga: ty::GenericArgsRef<'tcx>, args: &[V], ret: Ty<'tcx>) -> Option<Vec<(State<'tcx>, V)>> {
        if std::env::var("VTEXT").is_ok() { eprintln!("TEXT {full} {name} {trait_:?} {self_ty:?} {}", args.iter().map(short).collect::<Vec<_>>().join(" , ")); }
        let fin = |v: Vec<State<'tcx>>| Some(v.into_iter().map(|s| (s, ok(unit()))).collect::<Vec<_>>());
        if full.starts_with("core::fmt::rt::") && name.starts_with("new_") && args.len() == 1 {
            let t = ga.types().next()?;
            let v = self.fmt_argument(name, t, &args[0]);
            return Some(vec![(st, v)]);
        }
        if full.starts_with("core::fmt::rt::") && name == "from_usize" {
            let t = self.tcx.types.usize;
            let v = self.fmt_argument("usize", t, &args[0]);
            return Some(vec![(st, v)]);
        }
        let named = |n: &str| self_ty.is_some_and(|t| matches!(t.kind(), ty::Adt(a, _) if self.tcx.item_name(a.did()).as_str() == n));
        if full.starts_with("core::fmt::") && named("Arguments") && matches!(name, "new" | "from_str" | "from_str_nonconst") {
            return Some(vec![(st, V::Agg(args.to_vec().into()))]);
        }
        if full == "alloc::fmt::format" {
            let (sink, ty) = self.new_sink(&mut st);
            let _ = ty;
            let v = self.fmt_write(st, &sink, &args[0]);
            return Some(v.into_iter().map(|mut s| { let r = self.read(&mut s, &sink); (s, r) }).collect());
        }
        if trait_ == Some("ToString") && name == "to_string" {
            let (sink, _) = self.new_sink(&mut st);
            let v = self.fmt_value(st, "new_display", self_ty?, &args[0], Fo::plain(), &sink);
            let v = if v.len() > 1 { self.merge_states(v) } else { v };
            return Some(v.into_iter().map(|mut s| { let r = self.read(&mut s, &sink); (s, r) }).collect());
        }
        if full.starts_with("unicode_width::") && name == "width" && args.len() == 1 {
            if trait_ == Some("UnicodeWidthChar") {
                let V::I(c, _) = &args[0] else { return None };
                let r = match self.columns(&st, *c)? {
                    Some(n) => some(V::I(cst(n), USIZE)),
                    None => none(),
                };
                return Some(vec![(st, r)]);
            }
            if trait_ == Some("UnicodeWidthStr") {
                let s = self.text_of(&mut st, &args[0])?;
                let mut n = 0;
                for (_, c) in self.chars_of(&mut st, &s)? {
                    let (l, h) = st.facts.range(c);
                    if l <= 10 && h >= 10 {
                        return None;
                    }
                    n += self.columns(&st, c)?.unwrap_or(1);
                }
                return Some(vec![(st, V::I(cst(n), USIZE))]);
            }
        }
        // writing to a formatter
        if self_ty.is_some_and(|t| matches!(t.kind(), ty::Adt(a, _) if self.tcx.item_name(a.did()).as_str() == "Formatter")) && !args.is_empty() {
            let (sink, o) = self.formatter(&mut st, &args[0])?;
            match name {
                "write_str" | "pad" => {
                    let o = if name == "pad" { o } else { Fo::plain() };
                    let v = match self.as_slice(&mut st, &args[1]) {
                        Some((p, off, l)) => {
                            let s = self.subseq(&mut st, &p, off, l);
                            self.pad_text(st, &s, o, &sink)
                        }
                        None => {
                            self.append_unknown(&mut st, &sink);
                            vec![st]
                        }
                    };
                    return fin(v);
                }
                "write_char" => {
                    let s = match &args[1] {
                        V::I(c, _) => char_seq(&st, *c),
                        _ => None,
                    };
                    match s {
                        Some(s) => self.append(&mut st, &sink, &s),
                        None => self.append_unknown(&mut st, &sink),
                    }
                    return fin(vec![st]);
                }
                "write_fmt" => {
                    let v = self.fmt_write(st, &sink, &args[1]);
                    return fin(v);
                }
                "debug_c_like_enum_write_str" => {
                    let names = self.as_slice(&mut st, &args[1]).and_then(|(p, off, l)| {
                        let s = self.subseq(&mut st, &p, off, l);
                        bytes_of(&s, &st)
                    });
                    let at = match &args[2] {
                        V::I(t, _) => as_cst(st.facts.simp(*t)),
                        _ => None,
                    };
                    match (names, at) {
                        (Some(b), Some(i)) if (i as usize) <= b.len() => {
                            let w = b[i as usize..].split(|c| *c == b' ').next().unwrap_or(&[]);
                            self.append(&mut st, &sink, &str_seq(w));
                        }
                        _ => self.append_unknown(&mut st, &sink),
                    }
                    return fin(vec![st]);
                }
                "alternate" => return Some(vec![(st, V::I(cst((o.flags >> 23 & 1) as i128), BOOL))]),
                _ if name.starts_with("debug_") && name.ends_with("_finish") => {
                    self.append_unknown(&mut st, &sink);
                    return fin(vec![st]);
                }
                _ => {
                    self.append_unknown(&mut st, &sink);
                    let v = self.materialize(&mut st, ret, "fmt");
                    return Some(vec![(st, v)]);
                }
            }
        }
        // formatting a value of the library into a formatter
        if matches!(trait_, Some("Display" | "Debug" | "LowerHex" | "UpperHex")) && name == "fmt" && args.len() == 2 {
            let (sink, o) = self.formatter(&mut st, &args[1])?;
            let n = match trait_ {
                Some("Display") => "new_display",
                Some("Debug") => "new_debug",
                Some("LowerHex") => "new_lower_hex",
                _ => "new_upper_hex",
            };
            let v = self.fmt_value(st, n, self_ty?, &args[0], o, &sink);
            return fin(v);
        }
        // writing to a string
        if trait_ == Some("Write") && self_ty.is_some_and(|t| self.kind_of(t) == Special::Str) {
            let V::P(p) = &args[0] else { return None };
            let p = (**p).clone();
            match name {
                "write_fmt" => {
                    let v = self.fmt_write(st, &p, &args[1]);
                    return fin(v);
                }
                "write_str" => {
                    let (q, o, l) = self.as_slice(&mut st, &args[1])?;
                    let s = self.subseq(&mut st, &q, o, l);
                    self.append(&mut st, &p, &s);
                    return fin(vec![st]);
                }
                "write_char" => {
                    let V::I(c, _) = &args[1] else { return None };
                    let s = char_seq(&st, *c)?;
                    self.append(&mut st, &p, &s);
                    return fin(vec![st]);
                }
                _ => {}
            }
        }
        None
    }
    pub fn new_sink(&mut self, st: &mut State<'tcx>) -> (Ptr, Ty<'tcx>) {
        let tcx = self.tcx;
        let ty = tcx.get_diagnostic_item(rustc_span::Symbol::intern("String")).or_else(|| tcx.lang_items().string()).map(|d| tcx.type_of(d).instantiate_identity().skip_norm_wip()).unwrap_or(tcx.types.unit);
        let id = self.alloc(st, ty, V::Seq(Rc::new(str_seq(b""))));
        (Ptr { base: Base::Heap(id), path: vec![], sl: None, mt: true }, ty)
    }
}
pub fn hex_digit(n: T, up: bool) -> T {
    let a = if up { b'A' } else { b'a' };
    let es: Vec<(i128, T)> = (0..16).map(|i| (i, cst(if i < 10 { 48 + i } else { a as i128 + i - 10 }))).collect();
    mktab(n, es, cst(48))
}
/// the bytes of a character
pub fn char_seq(st: &State<'_>, c: T) -> Option<Seq> {
    let c = st.facts.simp(c);
    if let Some(x) = as_cst(c) {
        let mut b = [0; 4];
        return Some(str_seq(char::from_u32(x as u32)?.encode_utf8(&mut b).as_bytes()));
    }
    let (l, h) = st.facts.range(c);
    if l >= 0 && h < 128 {
        return Some(Seq { len: cst(1), items: Items::Known(Rc::new(vec![V::I(c, U8)])), cap: None, last: None });
    }
    None
}
impl<'tcx> Interp<'tcx> {
    /// the bytes of a text of fixed length
    fn elements(&mut self, st: &mut State<'tcx>, s: &Seq) -> Option<Vec<T>> {
        if as_cst(st.facts.simp(s.len))? > 1000 {
            return None;
        }
        self.long_text(st, s)
    }
    /// the most characters in a line
    pub fn widest(&self, st: &State<'tcx>, b: &[T]) -> Option<i128> {
        let (mut most, mut here) = (0, 0);
        for x in b {
            match as_cst(*x) {
                Some(10) => here = 0,
                Some(c) if c & 0xC0 == 0x80 => {}
                Some(_) => here += 1,
                None => {
                    let (l, h) = st.facts.range(*x);
                    if l < 32 || h > 126 {
                        return None;
                    }
                    here += 1;
                }
            }
            most = most.max(here);
        }
        Some(most)
    }
    /// the bytes that are in the set
    pub fn tally(&self, st: &State<'tcx>, b: &[T], set: &[u8]) -> Option<i128> {
        let mut n = 0;
        for x in b {
            match as_cst(*x) {
                Some(c) => n += set.contains(&(c as u8)) as i128,
                None => {
                    let (l, h) = st.facts.range(*x);
                    if set.iter().any(|c| *c as i128 >= l && *c as i128 <= h) {
                        return None;
                    }
                }
            }
        }
        Some(n)
    }
    /// every ampersand starts a predefined or numeric entity
    pub fn entities(&self, st: &State<'tcx>, b: &[T]) -> Option<bool> {
        for (i, x) in b.iter().enumerate() {
            match as_cst(*x) {
                Some(38) => {
                    let t: Vec<u8> = b[i + 1..].iter().take(10).map_while(|x| as_cst(*x).map(|c| c as u8)).collect();
                    let e = t.split(|c| *c == b';').next().unwrap_or(&[]);
                    let known = e.len() < t.len() && (matches!(e, b"amp" | b"lt" | b"gt" | b"quot" | b"apos") || e.len() > 1 && e[0] == b'#' && (e[1..].iter().all(|c| c.is_ascii_digit()) || e.len() > 2 && e[1] == b'x' && e[2..].iter().all(|c| c.is_ascii_hexdigit())));
                    if !known {
                        return Some(false);
                    }
                }
                Some(_) => {}
                None => {
                    let (l, h) = st.facts.range(*x);
                    if l <= 38 && h >= 38 {
                        return None;
                    }
                }
            }
        }
        Some(true)
    }
    pub fn long_text(&mut self, st: &mut State<'tcx>, s: &Seq) -> Option<Vec<T>> {
        let n = as_cst(st.facts.simp(s.len))?;
        if n > 100_000 {
            return None;
        }
        (0..n)
            .map(|i| match self.elem_v(st, s, i) {
                V::I(t, _) => Some(st.facts.simp(t)),
                _ => None,
            })
            .collect()
    }
    /// columns a character takes, for the characters whose width does not depend on their neighbours
    fn columns(&self, st: &State<'tcx>, c: T) -> Option<Option<i128>> {
        let (l, h) = st.facts.range(c);
        if l >= 0 && h < 32 || l >= 127 && h < 160 {
            return Some(None);
        }
        let narrow = [(32, 126), (0xA0, 0xAC), (0xAE, 0xFF), (0x391, 0x3C9), (0x2010, 0x2017), (0x2020, 0x2027), (0x2074, 0x208E), (0x2500, 0x257F)];
        narrow.iter().any(|(a, b)| l >= *a && h <= *b).then_some(Some(1))
    }
    /// its characters with their positions; bytes that are not constants must be ASCII
    fn chars_of(&mut self, st: &mut State<'tcx>, s: &Seq) -> Option<Vec<(usize, T)>> {
        let b = self.elements(st, s)?;
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let (l, h) = st.facts.range(b[i]);
            if l >= 0 && h < 128 {
                out.push((i, b[i]));
                i += 1;
                continue;
            }
            let x = as_cst(b[i])? as u8;
            let n = if x >= 0xF0 { 4 } else if x >= 0xE0 { 3 } else { 2 };
            let v: Option<Vec<u8>> = b.get(i..i + n)?.iter().map(|t| as_cst(*t).map(|x| x as u8)).collect();
            let v = v?;
            let c = std::str::from_utf8(&v).ok()?.chars().next()?;
            out.push((i, cst(c as i128)));
            i += n;
        }
        Some(out)
    }
    pub fn ascii(&mut self, st: &mut State<'tcx>, s: &Seq) -> bool {
        self.elements(st, s).is_some_and(|b| {
            b.iter().all(|x| {
                let (l, h) = st.facts.range(*x);
                l >= 0 && h < 128
            })
        })
    }
    /// positions i such that the text can be cut before byte i
    pub fn boundary(&mut self, st: &mut State<'tcx>, s: &Seq, i: T) -> bool {
        let i = st.facts.simp(i);
        if as_cst(i) == Some(0) || i == st.facts.simp(s.len) {
            return true;
        }
        let Some(b) = self.elements(st, s) else { return false };
        if let Some(k) = as_cst(i) {
            let Some(x) = b.get(k as usize) else { return true };
            let (l, h) = st.facts.range(*x);
            return l >= 0 && (h < 128 || l >= 192);
        }
        b.iter().all(|x| {
            let (l, h) = st.facts.range(*x);
            l >= 0 && h < 128
        })
    }
    /// the pattern of a search: a character or a text
    fn pattern(&mut self, st: &mut State<'tcx>, v: &V) -> Option<Seq> {
        match v {
            V::I(c, _) => char_seq(st, *c),
            V::P(_) => self.text_of(st, v),
            _ => None,
        }
    }
    fn matches_at(&mut self, b: &[T], i: usize, p: &[T]) -> T {
        let mut c = cst(1);
        for (k, x) in p.iter().enumerate() {
            c = and_b(c, eq0(sub(b[i + k], *x)));
        }
        c
    }
    pub fn str_method(&mut self, mut st: State<'tcx>, name: &str, p: &Ptr, o: T, l: T, args: &[V]) -> Option<Vec<(State<'tcx>, V)>> {
        let one = |st: State<'tcx>, v: V| Some(vec![(st, v)]);
        if name == "bytes" {
            let it = V::It(Rc::new(It { kind: ItKind::Ref(p.clone()), off: o, len: l }));
            return one(st, agg(vec![agg(vec![it])]));
        }
        let s = self.subseq(&mut st, p, o, l);
        match name {
            "repeat" => {
                let V::I(n, _) = &args[1] else { return None };
                let n = as_cst(st.facts.simp(*n))?;
                if n > 1000 {
                    return None;
                }
                let mut r = str_seq(b"");
                for _ in 0..n {
                    r = self.concat(&mut st, &r, &s);
                }
                return one(st, V::Seq(Rc::new(r)));
            }
            "chars" | "char_indices" => {
                let c = self.chars_of(&mut st, &s)?;
                let n = c.len() as i128;
                let v: Vec<V> = c.into_iter().map(|(i, t)| if name == "chars" { V::I(t, IK { bits: 32, signed: false }) } else { agg(vec![vus(cst(i as i128)), V::I(t, IK { bits: 32, signed: false })]) }).collect();
                let q = Seq { len: cst(n), items: Items::Known(Rc::new(v)), cap: None, last: None };
                return one(st, V::It(Rc::new(It { kind: ItKind::Own(q), off: cst(0), len: cst(n) })));
            }
            _ => {}
        }
        let b = self.elements(&mut st, &s)?;
        match name {
            "starts_with" | "ends_with" | "contains" | "strip_prefix" | "strip_suffix" | "find" | "rfind" | "split_once" => {
                let q = self.pattern(&mut st, args.get(1)?)?;
                let q = self.elements(&mut st, &q)?;
                if q.is_empty() {
                    return None;
                }
                let fits = q.len() <= b.len();
                let last = b.len().wrapping_sub(q.len());
                match name {
                    "starts_with" | "strip_prefix" | "ends_with" | "strip_suffix" => {
                        let pre = matches!(name, "starts_with" | "strip_prefix");
                        let c = if !fits { cst(0) } else { self.matches_at(&b, if pre { 0 } else { last }, &q) };
                        if matches!(name, "starts_with" | "ends_with") {
                            return one(st, vbool(c));
                        }
                        let (x, y) = self.fork(st, c);
                        let mut out = vec![];
                        if let Some(x) = x {
                            let n = q.len() as i128;
                            let v = if pre { self.mk_slice(p, addc(o, n), addc(l, -n), false) } else { self.mk_slice(p, o, addc(l, -n), false) };
                            out.push((x, some(v)));
                        }
                        if let Some(y) = y {
                            out.push((y, none()));
                        }
                        return Some(out);
                    }
                    "contains" => {
                        let mut c = cst(0);
                        if fits {
                            for i in 0..=last {
                                let m = self.matches_at(&b, i, &q);
                                c = or_b(c, m);
                            }
                        }
                        return one(st, vbool(c));
                    }
                    _ => {
                        let mut at: Vec<usize> = if fits { (0..=last).collect() } else { vec![] };
                        if name == "rfind" {
                            at.reverse();
                        }
                        let mut out = vec![];
                        let mut cur = Some(st);
                        for i in at {
                            let Some(s0) = cur else { break };
                            let c = self.matches_at(&b, i, &q);
                            let (x, y) = self.fork(s0, c);
                            if let Some(x) = x {
                                let v = if name == "split_once" {
                                    let e = (i + q.len()) as i128;
                                    agg(vec![self.mk_slice(p, o, cst(i as i128), false), self.mk_slice(p, addc(o, e), addc(l, -e), false)])
                                } else {
                                    vus(cst(i as i128))
                                };
                                out.push((x, some(v)));
                            }
                            cur = y;
                            if out.len() > 64 {
                                return None;
                            }
                        }
                        if let Some(y) = cur {
                            out.push((y, none()));
                        }
                        return Some(out);
                    }
                }
            }
            "split" => {
                let q = self.pattern(&mut st, args.get(1)?)?;
                let q = self.elements(&mut st, &q)?;
                if q.is_empty() {
                    return None;
                }
                let (mut v, mut from, mut i) = (vec![], 0usize, 0usize);
                while i + q.len() <= b.len() {
                    let c = self.matches_at(&b, i, &q);
                    match as_cst(st.facts.simp(c))? {
                        0 => i += 1,
                        _ => {
                            v.push(self.mk_slice(p, addc(o, from as i128), cst((i - from) as i128), false));
                            i += q.len();
                            from = i;
                        }
                    }
                }
                v.push(self.mk_slice(p, addc(o, from as i128), cst((b.len() - from) as i128), false));
                let n = v.len() as i128;
                let q = Seq { len: cst(n), items: Items::Known(Rc::new(v)), cap: None, last: None };
                return one(st, V::It(Rc::new(It { kind: ItKind::Own(q), off: cst(0), len: cst(n) })));
            }
            "trim_start_matches" | "trim_end_matches" if matches!(&args[1], V::P(_)) => {
                let q = self.pattern(&mut st, args.get(1)?)?;
                let q = self.elements(&mut st, &q)?;
                if q.is_empty() {
                    return None;
                }
                let pre = name == "trim_start_matches";
                let mut todo = vec![(st, 0usize, b.len())];
                let mut out = vec![];
                while let Some((s0, i, e)) = todo.pop() {
                    let c = if e - i < q.len() { cst(0) } else { self.matches_at(&b, if pre { i } else { e - q.len() }, &q) };
                    let (x, y) = self.fork(s0, c);
                    if let Some(x) = x {
                        todo.push(if pre { (x, i + q.len(), e) } else { (x, i, e - q.len()) });
                    }
                    if let Some(y) = y {
                        let v = self.mk_slice(p, addc(o, i as i128), cst((e - i) as i128), false);
                        out.push((y, v));
                    }
                }
                return Some(out);
            }
            "trim" | "trim_start" | "trim_end" | "trim_start_matches" | "trim_end_matches" | "trim_matches" => {
                let test = |t: T| -> Option<T> {
                    if name.ends_with("matches") {
                        match &args[1] {
                            V::I(c, _) => Some(eq0(sub(t, *c))),
                            _ => None,
                        }
                    } else {
                        let (lo, hi) = st.facts.range(t);
                        if lo < 0 || hi > 127 {
                            return as_cst(t).map(|_| cst(0));
                        }
                        let r = and_b(ge0(addc(t, -9)), ge0(addc(neg(t), 13)));
                        Some(or_b(r, eq0(addc(t, -32))))
                    }
                };
                if name.ends_with("matches") {
                    let V::I(c, _) = &args[1] else { return None };
                    if st.facts.range(*c).1 > 127 {
                        return None;
                    }
                }
                let tests: Option<Vec<T>> = b.iter().map(|t| test(*t)).collect();
                let tests = tests?;
                let (start, end) = (!name.contains("end"), !name.contains("start"));
                let mut todo = vec![(st, 0usize, b.len())];
                if start {
                    let mut next = vec![];
                    while let Some((s0, i, e)) = todo.pop() {
                        if i == e {
                            next.push((s0, i, e));
                            continue;
                        }
                        let (x, y) = self.fork(s0, tests[i]);
                        if let Some(y) = y {
                            next.push((y, i, e));
                        }
                        if let Some(x) = x {
                            todo.push((x, i + 1, e));
                        }
                    }
                    todo = next;
                }
                if end {
                    let mut next = vec![];
                    while let Some((s0, i, e)) = todo.pop() {
                        if i == e {
                            next.push((s0, i, e));
                            continue;
                        }
                        let (x, y) = self.fork(s0, tests[e - 1]);
                        if let Some(y) = y {
                            next.push((y, i, e));
                        }
                        if let Some(x) = x {
                            todo.push((x, i, e - 1));
                        }
                    }
                    todo = next;
                }
                let out = todo.into_iter().map(|(s0, i, e)| { let v = self.mk_slice(p, addc(o, i as i128), cst((e - i) as i128), false); (s0, v) }).collect();
                return Some(out);
            }
            "is_ascii" => {
                let mut c = cst(1);
                for t in &b {
                    c = and_b(c, ge0(addc(neg(*t), 127)));
                }
                return one(st, vbool(c));
            }
            "to_uppercase" | "to_lowercase" | "to_ascii_uppercase" | "to_ascii_lowercase" => {
                let t = bytes_of(&s, &st)?;
                let t = String::from_utf8(t).ok()?;
                let t = match name {
                    "to_uppercase" => t.to_uppercase(),
                    "to_lowercase" => t.to_lowercase(),
                    "to_ascii_uppercase" => t.to_ascii_uppercase(),
                    _ => t.to_ascii_lowercase(),
                };
                return one(st, V::Seq(Rc::new(str_seq(t.as_bytes()))));
            }
            "replace" => {
                let t = String::from_utf8(bytes_of(&s, &st)?).ok()?;
                let r = self.text_of(&mut st, &args[2])?;
                let r = String::from_utf8(bytes_of(&r, &st)?).ok()?;
                if let V::Seq(q) = &args[1] {
                    // any of several characters
                    let n = as_cst(st.facts.simp(q.len))?;
                    let set: Option<Vec<char>> = (0..n).map(|i| match self.elem_v(&mut st, q, i) { V::I(c, k) if k.bits == 32 => char::from_u32(as_cst(st.facts.simp(c))? as u32), _ => None }).collect();
                    return one(st, V::Seq(Rc::new(str_seq(t.replace(&set?[..], &r).as_bytes()))));
                }
                let f = self.pattern(&mut st, &args[1])?;
                let f = String::from_utf8(bytes_of(&f, &st)?).ok()?;
                return one(st, V::Seq(Rc::new(str_seq(t.replace(&f, &r).as_bytes()))));
            }
            _ => {}
        }
        None
    }
}
