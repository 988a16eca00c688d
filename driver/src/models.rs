//! Semantics of library functions that are not interpreted from their MIR.
use crate::bits;
use crate::interp::*;
use crate::term::*;
use crate::value::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

pub type R<'tcx> = Vec<(State<'tcx>, V)>;

pub fn head<'tcx>(ip: &Interp<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => ip.tcx.item_name(d.did()).to_string(),
        ty::Slice(_) => "slice".into(),
        ty::Array(..) => "array".into(),
        ty::Str => "str".into(),
        ty::Ref(..) => "ref".into(),
        ty::RawPtr(..) => "ptr".into(),
        ty::Int(_) | ty::Uint(_) => "int".into(),
        ty::Float(_) => "float".into(),
        ty::Bool => "bool".into(),
        ty::Char => "char".into(),
        ty::Tuple(_) => "tuple".into(),
        ty::Closure(..) => "closure".into(),
        ty::FnDef(..) => "fndef".into(),
        ty::FnPtr(..) => "fnptr".into(),
        ty::Dynamic(..) => "dyn".into(),
        ty::Param(_) => "param".into(),
        _ => "other".into(),
    }
}
pub struct Key<'tcx> {
    pub trait_: Option<String>,
    pub name: String,
    pub head: String,
    pub self_ty: Option<Ty<'tcx>>,
    pub full: String,
    pub krate: String,
}
pub fn key_of<'tcx>(ip: &mut Interp<'tcx>, d: DefId, ga: ty::GenericArgsRef<'tcx>) -> Key<'tcx> {
    let tcx = ip.tcx;
    let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_else(|| "{closure}".into());
    let krate = tcx.crate_name(d.krate).to_string();
    let full = match ip.key_cache.get(&d) {
        Some(s) => s.clone(),
        None => {
            let s = format!("{}{}", krate, tcx.def_path(d).to_string_no_crate_verbose());
            ip.key_cache.insert(d, s.clone());
            s
        }
    };
    match tcx.assoc_parent(d) {
        Some((p, DefKind::Trait)) => {
            let st = ga.types().next();
            let h = st.map(|t| head(ip, t)).unwrap_or_default();
            Key { trait_: Some(tcx.item_name(p).to_string()), name, head: h, self_ty: st, full, krate }
        }
        Some((p, DefKind::Impl { of_trait })) => {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let st = {
                // instantiate the impl's self type with the leading generic args
                let e = tcx.type_of(p);
                let n = tcx.generics_of(p).count();
                if ga.len() >= n { e.instantiate(tcx, tcx.mk_args(&ga[..n])).skip_norm_wip() } else { st }
            };
            let h = head(ip, st);
            let tr = if of_trait { tcx.impl_opt_trait_ref(p).map(|r| tcx.item_name(r.skip_binder().def_id).to_string()) } else { None };
            Key { trait_: tr, name, head: h, self_ty: Some(st), full, krate }
        }
        _ => Key { trait_: None, name, head: String::new(), self_ty: None, full, krate },
    }
}

impl<'tcx> Interp<'tcx> {
    /// resolve a value to a sequence place: (pointer without slice bounds, offset, length)
    pub fn as_slice(&mut self, st: &mut State<'tcx>, v: &V) -> Option<(Ptr, T, T)> {
        match v {
            V::P(p) => {
                if let Some((o, l)) = p.sl {
                    return Some((Ptr { sl: None, ..(**p).clone() }, o, l));
                }
                match self.read(st, p) {
                    V::Seq(s) => Some(((**p).clone(), cst(0), s.len)),
                    V::P(q) => self.as_slice(st, &V::P(q)),
                    // Cow and similar wrappers
                    _ => None,
                }
            }
            _ => None,
        }
    }
    pub fn mk_slice(&self, p: &Ptr, off: T, len: T, mt: bool) -> V {
        V::P(Rc::new(Ptr { base: p.base, path: p.path.clone(), sl: Some((off, len)), mt }))
    }
    pub fn elem(&self, p: &Ptr, i: T, mt: bool) -> Ptr {
        let mut q = p.clone();
        q.sl = None;
        q.path.push(Pj::Ix(i));
        q.mt = mt;
        q
    }
    pub fn seq_at(&mut self, st: &mut State<'tcx>, p: &Ptr) -> Option<Rc<Seq>> {
        match self.read(st, &Ptr { sl: None, ..p.clone() }) {
            V::Seq(s) => Some(s),
            _ => None,
        }
    }
    /// a sequence value equal to [off, off+len) of the place
    pub fn subseq(&mut self, st: &mut State<'tcx>, p: &Ptr, off: T, len: T) -> Seq {
        let Some(s) = self.seq_at(st, p) else {
            return Seq { len, items: Items::Top, cap: None, last: None };
        };
        let (off, len) = (st.facts.simp(off), st.facts.simp(len));
        if as_cst(off) == Some(0) && st.facts.simp(s.len) == len {
            return Seq { cap: None, ..(*s).clone() };
        }
        let items = match &s.items {
            Items::Known(f) => match (as_cst(off), as_cst(len)) {
                (Some(o), Some(l)) if o >= 0 && l >= 0 && (o + l) as usize <= f.len() => Items::Known(Rc::new(f[o as usize..(o + l) as usize].to_vec())),
                _ => match summary(&s, &st.facts) {
                    Some(x) => Items::Summ(x),
                    None => Items::Top,
                },
            },
            Items::Content(c, k) => Items::Content(sub_content(*c, off), *k),
            o => o.clone(),
        };
        Seq { len, items, cap: None, last: None }
    }
    pub fn elem_v(&mut self, st: &mut State<'tcx>, s: &Seq, i: i128) -> V {
        match &s.items {
            Items::Known(f) => f.get(i as usize).cloned().unwrap_or(V::Top),
            Items::Content(c, k) => V::I(read_content(*c, cst(i), *k), *k),
            Items::Summ(x) => {
                let _ = st;
                freshen(x)
            }
            Items::Top => V::Top,
        }
    }
    pub fn fork(&mut self, st: State<'tcx>, cond: T) -> (Option<State<'tcx>>, Option<State<'tcx>>) {
        let c = st.facts.simp(cond);
        match st.facts.truth(c) {
            Some(true) => (Some(st), None),
            Some(false) => (None, Some(st)),
            None => {
                let mut a = st.clone();
                let mut b = st;
                let oa = a.facts.assume(c, true) && !a.facts.dead;
                let ob = b.facts.assume(c, false) && !b.facts.dead;
                if oa && ob {
                    a.push_path(c, Ok(1));
                    b.push_path(c, Ok(0));
                }
                (oa.then_some(a), ob.then_some(b))
            }
        }
    }
    /// an obligation `cond` is true; assumed afterwards
    pub fn need(&mut self, st: &mut State<'tcx>, cond: T, kind: &str, what: &str) {
        let c = st.facts.simp(cond);
        let mut ok = st.facts.truth(c) == Some(true);
        if let (false, Node::Ge0(t)) = (ok, node(c)) {
            ok = st.facts.entails_cases(t, 8);
        }
        let why = if ok { String::new() } else { format!("cannot show {}", show(c)) };
        if !ok && std::env::var("VFACTS").is_ok() {
            eprintln!("FAILED {what}: {why}");
            dump_facts(&st.facts);
        }
        self.oblige(kind, what, ok, why);
        st.facts.assume(c, true);
    }
    fn range_of(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, v: &V, len: T) -> Option<(T, T)> {
        let _ = st;
        let h = head(self, t);
        let f = match v {
            V::Agg(f) => f.clone(),
            _ => return None,
        };
        let g = |i: usize| match f.get(i) {
            Some(V::I(t, _)) => Some(*t),
            _ => None,
        };
        Some(match h.as_str() {
            "Range" => (g(0)?, g(1)?),
            "RangeFrom" => (g(0)?, len),
            "RangeTo" => (cst(0), g(0)?),
            "RangeFull" => (cst(0), len),
            "RangeInclusive" => (g(0)?, addc(g(1)?, 1)),
            "RangeToInclusive" => (cst(0), addc(g(0)?, 1)),
            _ => return None,
        })
    }
    pub fn opaque_string(&mut self, st: &mut State<'tcx>) -> V {
        let _ = st;
        V::Seq(Rc::new(Seq { len: fresh("slen", 0, i64::MAX as i128), items: Items::Content(fresh_content("str"), U8), cap: None, last: None }))
    }
    pub fn concat(&mut self, st: &mut State<'tcx>, a: &Seq, b: &Seq) -> Seq {
        let len = add(a.len, b.len);
        if as_cst(st.facts.simp(a.len)) == Some(0) {
            return Seq { cap: a.cap, ..b.clone() };
        }
        if as_cst(st.facts.simp(b.len)) == Some(0) {
            return a.clone();
        }
        let (na, nb) = (as_cst(a.len), as_cst(b.len));
        let flat = |ip: &mut Self, st: &mut State<'tcx>, s: &Seq, n: i128| -> Option<Vec<V>> {
            match &s.items {
                Items::Known(f) if f.len() as i128 == n => Some((**f).clone()),
                Items::Content(..) => Some((0..n).map(|i| ip.elem_v(st, s, i)).collect()),
                _ => None,
            }
        };
        if let (Some(na), Some(nb)) = (na, nb) {
            let plain = |s: &Seq, n: i128| match &s.items {
                Items::Content(c, _) => match cnode(*c) {
                    CN::Bytes(b) if b.len() as i128 >= n => Some(b),
                    _ => None,
                },
                _ => None,
            };
            if let (true, Some(x), Some(y)) = (self.opts.text && na + nb <= 64_000, plain(a, na), plain(b, nb)) {
                let mut v = x[..na as usize].to_vec();
                v.extend_from_slice(&y[..nb as usize]);
                return Seq { cap: a.cap, ..str_seq(&v) };
            }
            if na + nb <= if self.opts.text { 12_000 } else { 64 } {
                if let (Some(mut x), Some(y)) = (flat(self, st, a, na), flat(self, st, b, nb)) {
                    x.extend(y);
                    if x.iter().all(|v| matches!(v, V::I(t, k) if *k == U8 && as_cst(*t).is_some())) {
                        let bytes: Vec<u8> = x.iter().map(|v| if let V::I(t, _) = v { as_cst(*t).unwrap() as u8 } else { 0 }).collect();
                        return Seq { cap: a.cap, ..str_seq(&bytes) };
                    }
                    return Seq { len, items: Items::Known(Rc::new(x)), cap: a.cap, last: None };
                }
            }
        }
        let last = b.last_v();
        let ka = int_kind(a).or(int_kind(b));
        let items = match ka {
            Some(k) if int_kind(b).is_some() => {
                // contents of a concatenation: a function of both parts
                match (&a.items, &b.items) {
                    (Items::Content(c, _), Items::Content(d, _)) => Items::Content(mkc(CN::App("cat".into(), Rc::from([*c, *d]), Rc::from([a.len, b.len]))), k),
                    _ => Items::Content(fresh_content("cat"), k),
                }
            }
            _ => match (summary(a, &st.facts), summary(b, &st.facts)) {
                (Some(x), Some(y)) => Items::Summ(summ_join(&x, &y)),
                _ => Items::Top,
            },
        };
        Seq { len, items, cap: a.cap, last }
    }
    pub fn push_seq(&mut self, st: &mut State<'tcx>, s: &Seq, v: V) -> Seq {
        let b = Seq { len: cst(1), items: Items::Known(Rc::new(vec![v])), cap: None, last: None };
        self.concat(st, s, &b)
    }
    pub fn new_seq(&self, ty: Ty<'tcx>) -> V {
        V::Seq(Rc::new(Seq { len: cst(0), items: Items::Known(Rc::new(vec![])), cap: self.cap_of(ty), last: None }))
    }
    /// write `src` over [off, off+len) of the sequence at p
    pub fn write_range(&mut self, st: &mut State<'tcx>, p: &Ptr, off: T, src: &Seq) {
        let Some(s) = self.seq_at(st, p) else {
            self.unsup("write_range into unknown sequence".into());
            return;
        };
        let p0 = Ptr { sl: None, ..p.clone() };
        if as_cst(st.facts.simp(off)) == Some(0) && st.facts.simp(s.len) == st.facts.simp(src.len) {
            self.write(st, &p0, V::Seq(Rc::new(Seq { cap: s.cap, len: s.len, ..src.clone() })));
            return;
        }
        if let (Some(o), Some(n), Some(tot)) = (as_cst(st.facts.simp(off)), as_cst(st.facts.simp(src.len)), as_cst(st.facts.simp(s.len))) {
            if n <= 600 && tot <= 600 {
                for i in 0..n {
                    let e = self.elem_v(st, src, i);
                    let q = self.elem(&p0, cst(o + i), true);
                    self.write(st, &q, e);
                }
                return;
            }
        }
        let items = match (&s.items, int_kind(src)) {
            (Items::Content(..) | Items::Known(_), Some(k)) => Items::Content(fresh_content("wr"), k),
            (Items::Summ(x), _) => match summary(src, &st.facts) {
                Some(y) => Items::Summ(summ_join(x, &y)),
                None => Items::Top,
            },
            _ => Items::Top,
        };
        self.write(st, &p0, V::Seq(Rc::new(Seq { items, last: None, ..(*s).clone() })));
    }
    /// equality of two values as a boolean term
    pub fn eq_v(&mut self, st: &mut State<'tcx>, a: &V, b: &V, d: u32) -> Option<T> {
        if d == 0 {
            return None;
        }
        if a == b && !matches!(a, V::Top | V::Fl(_)) && !has_top(a) {
            return Some(cst(1));
        }
        match (a, b) {
            (V::I(x, _), V::I(y, _)) => {
                let c = eq0(sub(st.facts.simp(*x), st.facts.simp(*y)));
                Some(match st.facts.truth(c) {
                    Some(b) => cst(b as i128),
                    None => c,
                })
            }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                let mut acc = cst(1);
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.eq_v(st, p, q, d - 1)?;
                    acc = and_b(acc, e);
                }
                Some(acc)
            }
            (V::En(x), V::En(y)) => {
                let dd = eq0(sub(st.facts.simp(x.d), st.facts.simp(y.d)));
                match st.facts.truth(dd) {
                    Some(false) => return Some(cst(0)),
                    _ => {}
                }
                if let (Some(p), Some(q)) = (as_cst(st.facts.simp(x.d)), as_cst(st.facts.simp(y.d))) {
                    if p != q {
                        return Some(cst(0));
                    }
                    let f = x.vars.iter().find(|z| z.0 as i128 == p).map(|z| z.1.clone());
                    let g = y.vars.iter().find(|z| z.0 as i128 == p).map(|z| z.1.clone());
                    return match (f, g) {
                        (Some(f), Some(g)) => self.eq_v(st, &V::Agg(f), &V::Agg(g), d - 1),
                        _ => None,
                    };
                }
                // all payloads empty or equal under equal discriminants
                let mut acc = dd;
                for (v, f) in &x.vars {
                    if f.is_empty() {
                        continue;
                    }
                    let (l, h) = st.facts.range(y.d);
                    if (*v as i128) < l || (*v as i128) > h {
                        continue;
                    }
                    let (l, h) = st.facts.range(x.d);
                    if (*v as i128) < l || (*v as i128) > h {
                        continue;
                    }
                    let g = y.vars.iter().find(|z| z.0 == *v)?.1.clone();
                    let e = self.eq_v(st, &V::Agg(f.clone()), &V::Agg(g), d - 1)?;
                    // (d == v) implies e
                    let isv = eq0(addc(st.facts.simp(x.d), -(*v as i128)));
                    acc = and_b(acc, or_b(not(isv), e));
                }
                for (v, g) in &y.vars {
                    if !g.is_empty() && !x.vars.iter().any(|z| z.0 == *v) {
                        let (l, h) = st.facts.range(x.d);
                        if (*v as i128) >= l && (*v as i128) <= h {
                            return None;
                        }
                    }
                }
                Some(acc)
            }
            (V::P(p), V::P(q)) => {
                if p == q {
                    return Some(cst(1));
                }
                if p.sl.is_some() || q.sl.is_some() {
                    let (p1, o1, l1) = self.as_slice(st, a)?;
                    let (p2, o2, l2) = self.as_slice(st, b)?;
                    let s1 = self.subseq(st, &p1, o1, l1);
                    let s2 = self.subseq(st, &p2, o2, l2);
                    return self.eq_seq(st, &s1, &s2, d);
                }
                let x = self.read(st, p);
                let y = self.read(st, q);
                self.eq_v(st, &x, &y, d - 1)
            }
            (V::Seq(x), V::Seq(y)) => self.eq_seq(st, &x.clone(), &y.clone(), d),
            (V::Fl(x), V::Fl(y)) => {
                if let (Some(p), Some(q)) = (fint(*x), fint(*y)) {
                    return Some(eq0(sub(p, q)));
                }
                if let (Some(p), Some(q)) = (fconst_of(*x), fconst_of(*y)) {
                    return Some(cst((p == q) as i128));
                }
                None
            }
            _ => None,
        }
    }
    pub fn eq_seq(&mut self, st: &mut State<'tcx>, x: &Seq, y: &Seq, d: u32) -> Option<T> {
        let (lx, ly) = (st.facts.simp(x.len), st.facts.simp(y.len));
        let le = eq0(sub(lx, ly));
        match st.facts.truth(le) {
            Some(false) => return Some(cst(0)),
            Some(true) => {}
            None => {}
        }
        let n = as_cst(lx).or(as_cst(ly));
        if let Some(n) = n {
            if n <= 600 {
                let mut acc = match st.facts.truth(le) {
                    Some(true) => cst(1),
                    _ => le,
                };
                for i in 0..n {
                    let (p, q) = (self.elem_v(st, x, i), self.elem_v(st, y, i));
                    let e = self.eq_v(st, &p, &q, d - 1)?;
                    acc = and_b(acc, e);
                    if as_cst(acc) == Some(0) {
                        return Some(cst(0));
                    }
                }
                return Some(acc);
            }
        }
        match (&x.items, &y.items) {
            (Items::Content(c, _), Items::Content(e, _)) if c == e => Some(match st.facts.truth(le) {
                Some(true) => cst(1),
                _ => le,
            }),
            (Items::Content(c, _), Items::Content(e, _)) => {
                let (c, e) = (*c.min(e), *c.max(e));
                let a = mk(Node::App { f: format!("seqeq{c}_{e}").into(), args: Rc::from([lx, ly]), lo: 0, hi: 1 });
                Some(a)
            }
            _ => None,
        }
    }
}
pub fn and_b(a: T, b: T) -> T {
    bits::and(a, b)
}
pub fn or_b(a: T, b: T) -> T {
    bits::or(a, b)
}
pub fn has_top(v: &V) -> bool {
    match v {
        V::Top => true,
        V::Agg(f) => f.iter().any(has_top),
        V::En(e) => e.vars.iter().any(|(_, f)| f.iter().any(has_top)),
        V::Seq(s) => match &s.items {
            Items::Top | Items::Summ(_) => true,
            Items::Known(f) => f.iter().any(has_top),
            _ => false,
        },
        V::Fl(_) => true,
        _ => false,
    }
}
/// the bytes of a sequence that is a literal
fn lit_bytes(st: &State<'_>, s: &Seq) -> Option<Vec<u8>> {
    let n = as_cst(st.facts.simp(s.len))? as usize;
    match &s.items {
        Items::Content(c, _) => match cnode(*c) {
            CN::Bytes(b) if b.len() >= n => Some(b[..n].to_vec()),
            _ => None,
        },
        Items::Known(v) if v.len() >= n => v[..n].iter().map(|x| match x { V::I(t, _) => as_cst(st.facts.simp(*t)).map(|c| c as u8), _ => None }).collect(),
        _ => None,
    }
}
pub fn int_kind(s: &Seq) -> Option<IK> {
    match &s.items {
        Items::Content(_, k) => Some(*k),
        Items::Known(f) => match f.first() {
            Some(V::I(_, k)) if f.iter().all(|x| matches!(x, V::I(..))) => Some(*k),
            _ => None,
        },
        Items::Summ(V::I(_, k)) => Some(*k),
        _ => None,
    }
}
pub fn sub_content(c: C, off: T) -> C {
    if as_cst(off) == Some(0) {
        return c;
    }
    if let CN::App(f, cs, ts) = cnode(c) {
        if &*f == "sub" {
            return mkc(CN::App("sub".into(), cs, Rc::from([add(ts[0], off)])));
        }
    }
    if let (CN::Bytes(b), Some(o)) = (cnode(c), as_cst(off)) {
        if o >= 0 && o as usize <= b.len() {
            return mkc(CN::Bytes(b[o as usize..].into()));
        }
    }
    mkc(CN::App("sub".into(), Rc::from([c]), Rc::from([off])))
}
fn one<'tcx>(st: State<'tcx>, v: V) -> R<'tcx> {
    vec![(st, v)]
}

#[allow(clippy::too_many_arguments)]
pub fn dispatch<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, d: DefId, ga: ty::GenericArgsRef<'tcx>, inst: Instance<'tcx>, args: Vec<V>, atys: Vec<Ty<'tcx>>, ret: Ty<'tcx>) -> R<'tcx> {
    let tcx = ip.tcx;
    // dynamic dispatch: use the concrete pointee when it is known
    if let ty::InstanceKind::Virtual(..) = inst.def {
        if let Some(V::P(p)) = args.first() {
            if let Some(t) = ip.ptr_ty(&st, p) {
                if !matches!(t.kind(), ty::Dynamic(..)) {
                    let mut v: Vec<ty::GenericArg<'tcx>> = ga.to_vec();
                    v[0] = t.into();
                    let ga2 = tcx.mk_args(&v);
                    if let Ok(Some(i2)) = Instance::try_resolve(tcx, ip.env, d, ga2) {
                        return dispatch(ip, st, d, ga2, i2, args, atys, ret);
                    }
                }
            }
        }
        let n = tcx.def_path_str(d);
        if n.contains("fmt::") || n.contains("Write") || n.contains("Error") {
            let v = ip.materialize(&mut st, ret, "r");
            return one(st, v);
        }
        *ip.opaque_calls.entry(format!("dyn {n}")).or_insert(0) += 1;
        return ip.havoc_call(st, &args, &atys, ret);
    }
    let kd = key_of(ip, d, ga);
    // closures and function items through Fn* traits
    if matches!(kd.trait_.as_deref(), Some("Fn" | "FnMut" | "FnOnce")) && kd.krate == "core" {
        let mut sty = kd.self_ty.unwrap();
        let mut v0 = args[0].clone();
        loop {
            match sty.kind() {
                ty::Ref(_, t, _) => {
                    sty = *t;
                    v0 = match &v0 {
                        V::P(p) => ip.read(&mut st, p),
                        _ => V::Top,
                    };
                    // call_mut on &mut F: v0 is now the inner pointer when F is itself a reference
                }
                _ => break,
            }
        }
        match sty.kind() {
            ty::FnDef(d2, ga2) => {
                let fargs: Vec<V> = match &args[1] {
                    V::Agg(f) => f.to_vec(),
                    _ => vec![],
                };
                let ftys: Vec<Ty<'tcx>> = match atys[1].kind() {
                    ty::Tuple(l) => l.to_vec(),
                    _ => vec![],
                };
                return ip.call(st, *d2, ga2.skip_binder(), fargs, ftys, ret);
            }
            ty::Closure(cd, cargs) => {
                let kind = cargs.as_closure().kind();
                let ci = Instance::resolve_closure(tcx, *cd, cargs, kind);
                // how the environment reaches us
                let depth_refs = {
                    let mut n = 0;
                    let mut t = kd.self_ty.unwrap();
                    while let ty::Ref(_, x, _) = t.kind() {
                        n += 1;
                        t = *x;
                    }
                    n
                };
                // the closure value or pointer to it
                let by_ref = kd.name != "call_once";
                let total_refs = depth_refs + by_ref as usize;
                let mut env = args[0].clone();
                let want_ref = !matches!(kind, ty::ClosureKind::FnOnce);
                let mut have = total_refs;
                let want = want_ref as usize;
                while have > want {
                    env = match &env {
                        V::P(p) => ip.read(&mut st, p),
                        _ => V::Top,
                    };
                    have -= 1;
                }
                if have < want {
                    let id = ip.alloc(&mut st, sty, env);
                    env = V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: None, mt: true }));
                }
                let _ = v0;
                let mut a = vec![env];
                match &args[1] {
                    V::Agg(f) => a.extend(f.iter().cloned()),
                    _ => a.push(V::Top),
                }
                return ip.exec_fn(st, ci, a);
            }
            _ => {}
        }
    }
    let ki = key_of(ip, inst.def_id(), inst.args);
    if let Some(r) = native(ip, &mut st, d, ga, inst, &kd, &ki, &args, &atys, ret) {
        return r;
    }
    if let ty::InstanceKind::Intrinsic(di) = inst.def {
        let n = tcx.item_name(di).to_string();
        return intrinsic(ip, st, &n, inst, args, atys, ret);
    }
    if ret.is_never() {
        let what = panic_name(&ki);
        ip.oblige("panic", &what, false, "reachable".into());
        return vec![];
    }
    let inline = match ki.krate.as_str() {
        "core" | "alloc" | "std" => !ki.full.contains("fmt::") && !ki.full.contains("unicode") && !ki.full.contains("::io::") && !ki.full.contains("::fs::") && !ki.full.contains("::env::") && !ki.full.contains("::process::") && !ki.full.contains("::collections::") && !ki.full.contains("::sync::") && !ki.full.contains("::ffi::") && !ki.full.contains("::path::"),
        k => is_workspace(k) || k == "arrayvec" || k == "bitflags" || k == "hybrid_array" || (k == "serde_json" && ki.full.starts_with("serde_json::value::") && (ki.name.starts_with("as_") || ki.name.starts_with("is_"))),
    };
    if let (true, ty::Adt(adt, _)) = (tcx.is_constructor(inst.def_id()), ret.kind()) {
        let v = if adt.is_enum() { crate::value::en(adt.variant_index_with_ctor_id(inst.def_id()).as_u32(), args) } else { V::Agg(Rc::new(args)) };
        return vec![(st, v)];
    }
    if inline && !ki.full.contains("Debug") {
        return ip.exec_fn(st, inst, args);
    }
    // opaque external function
    if may_panic(ip, inst.def_id()) {
        let what = format!("call of {} (may panic)", ki.full);
        ip.oblige("panic", &what, false, "documented panics not excluded".into());
    }
    ip.opaque(st, inst, args, Some(ret))
}
pub fn is_workspace(k: &str) -> bool {
    matches!(k, "m_bus_parser" | "m_bus_core" | "m_bus_application_layer" | "wired_mbus_link_layer" | "wireless_mbus_link_layer" | "harness" | "m_bus_parser_cli" | "m_bus_parser_wasm_pack" | "pymbusparser" | "fixtures")
}
fn may_panic<'tcx>(ip: &Interp<'tcx>, d: DefId) -> bool {
    let tcx = ip.tcx;
    if tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) {
        return true;
    }
    false
}
fn panic_name(k: &Key<'_>) -> String {
    let n = k.full.as_str();
    if n.contains("unwrap_failed") {
        "unwrap on None/Err".into()
    } else if n.contains("expect_failed") {
        "expect on None/Err".into()
    } else if n.contains("slice_") || n.contains("index") {
        "slice index".into()
    } else {
        "explicit panic".into()
    }
}

fn arg_int(args: &[V], i: usize) -> Option<(T, IK)> {
    match args.get(i) {
        Some(V::I(t, k)) => Some((*t, *k)),
        _ => None,
    }
}

#[allow(clippy::too_many_arguments)]
fn native<'tcx>(ip: &mut Interp<'tcx>, st_: &mut State<'tcx>, d: DefId, ga: ty::GenericArgsRef<'tcx>, inst: Instance<'tcx>, kd: &Key<'tcx>, ki: &Key<'tcx>, args: &[V], atys: &[Ty<'tcx>], ret: Ty<'tcx>) -> Option<R<'tcx>> {
    let tcx = ip.tcx;
    let mut st = st_.clone();
    macro_rules! ret1 {
        ($v:expr) => {{
            let v = $v;
            return Some(vec![(st, v)]);
        }};
    }
    let name = kd.name.as_str();
    let is_std = matches!(ki.krate.as_str(), "core" | "alloc" | "std" | "arrayvec");
    // ---- harness vocabulary
    if d.is_local() && ki.full.strip_prefix(ki.krate.as_str()).is_some_and(|p| p.starts_with("::spec::")) {
        if let Some(r) = ip.front_spec(st.clone(), name, args, ret) {
            return Some(r);
        }
        match name {
            "verify" => {
                let V::I(c, _) = &args[0] else {
                    ip.oblige("verify", "specification", false, "unknown condition".into());
                    ret1!(unit());
                };
                let label = args.get(1).and_then(|v| const_str(ip, &mut st, v)).unwrap_or_default();
                let c = st.facts.simp(*c);
                let mut okk = st.facts.truth(c) == Some(true);
                let c = bits::expand(c);
                okk |= st.facts.truth(c) == Some(true);
                let mut why = String::new();
                if !okk {
                    // case split on conditions occurring in the claim
                    okk = ip.prove_by_cases(&st, c, 6);
                }
                if !okk {
                    why = format!("cannot show {}", show(c));
                    if std::env::var("VFACTS").is_ok() {
                        eprintln!("FAILED verify {label}: {why}");
                        dump_facts(&st.facts);
                    }
                }
                ip.oblige("verify", &label, okk, why);
                st.facts.assume(c, true);
                ret1!(unit());
            }
            "assume" => {
                if let V::I(c, _) = &args[0] {
                    let c = *c;
                    if !st.facts.assume(c, true) || st.facts.dead {
                        return Some(vec![]);
                    }
                }
                ret1!(unit());
            }
            "any" => {
                let t = ret;
                let v = ip.materialize(&mut st, t, "in");
                ret1!(v);
            }
            "widest" | "tally" | "entities" => {
                let t = ip.text_of(&mut st, &args[0]);
                let b = t.and_then(|t| ip.long_text(&mut st, &t));
                let set = args.get(1).and_then(|v| const_str(ip, &mut st, v)).unwrap_or_default();
                let v = match (b, name) {
                    (Some(b), "widest") => ip.widest(&st, &b).map(|n| vus(cst(n))),
                    (Some(b), "tally") => ip.tally(&st, &b, set.as_bytes()).map(|n| vus(cst(n))),
                    (Some(b), _) => ip.entities(&st, &b).map(|x| vbool(cst(x as i128))),
                    _ => None,
                };
                let v = v.unwrap_or_else(|| ip.materialize(&mut st, ret, "text"));
                ret1!(v);
            }
            "exact_text" => {
                ip.opts.text = true;
                ret1!(unit());
            }
            "reached" => {
                let label = args.first().and_then(|v| const_str(ip, &mut st, v)).unwrap_or_default();
                ip.oblige("reached", &label, true, String::new());
                ret1!(unit());
            }
            "split" => {
                // fork over all values of a small integer
                let Some((t, k)) = arg_int(args, 0) else { ret1!(args[0].clone()) };
                let t = st.facts.simp(t);
                let (l, h) = st.facts.range(t);
                if h - l > 300 {
                    ip.unsup("split of a large range".into());
                    ret1!(args[0].clone());
                }
                let mut out = vec![];
                for v in l..=h {
                    let mut s = st.clone();
                    let ok = if k == BOOL { s.facts.assume(t, v != 0) } else { s.facts.assume_eq0(addc(t, -v)) };
                    if ok && !s.facts.dead {
                        s.push_path(t, Ok(v));
                        let mut cur = match s.ghost.get("$split") {
                            Some(V::Agg(c)) => (**c).clone(),
                            _ => vec![],
                        };
                        cur.push(V::I(cst(v), k));
                        Rc::make_mut(&mut s.ghost).insert("$split".into(), agg(cur));
                        out.push((s, V::I(cst(v), k)));
                    }
                }
                return Some(out);
            }
            "show" => {
                eprintln!("SHOW {} in {}", short(&args[0]), ip.cur_fn());
                if let V::P(p) = &args[0] {
                    let v = ip.read(&mut st, p);
                    eprintln!("   -> {}", short(&v));
                }
                ret1!(unit());
            }
            "same" => {
                // structural equality of two values behind references
                let (a, b) = (deref1(ip, &mut st, &args[0]), deref1(ip, &mut st, &args[1]));
                let c = ip.eq_v(&mut st, &a, &b, 12);
                ret1!(vbool(c.unwrap_or_else(|| fresh("same", 0, 1))));
            }
            "same_region" => {
                // do two slices denote the same region of the same memory?
                let r = match (&args[0], &args[1]) {
                    (V::P(p), V::P(q)) if p.base == q.base && p.path == q.path => match (p.sl, q.sl) {
                        (Some(a), Some(b)) => {
                            let x = eq0(sub(st.facts.simp(a.0), st.facts.simp(b.0)));
                            let y = eq0(sub(st.facts.simp(a.1), st.facts.simp(b.1)));
                            and_b(x, y)
                        }
                        _ => cst(0),
                    },
                    _ => cst(0),
                };
                ret1!(vbool(r));
            }
            "offset_in" => {
                // offset of a subslice within a slice of the same memory; usize::MAX if unrelated
                let r = match (&args[0], &args[1]) {
                    (V::P(p), V::P(q)) if p.base == q.base && p.path == q.path => match (p.sl, q.sl) {
                        (Some(a), Some(b)) => sub(a.0, b.0),
                        _ => cst(u64::MAX as i128),
                    },
                    _ => cst(u64::MAX as i128),
                };
                ret1!(vus(r));
            }
            "ghost_set" => {
                let label = const_str(ip, &mut st, &args[0]).unwrap_or_default();
                Rc::make_mut(&mut st.ghost).insert(label, args[1].clone());
                ret1!(unit());
            }
            _ => {}
        }
    }
    // ---- block ciphers: the object holds key and vector; decryption is the stand-in in harness/src/models.rs
    if matches!(ki.krate.as_str(), "cbc" | "cipher" | "crypto_common") || matches!(kd.krate.as_str(), "cipher" | "crypto_common") {
        let inner = |v: V| match &v {
            V::Agg(f) if f.len() == 1 => f[0].clone(),
            _ => v,
        };
        if name == "new" && args.len() == 2 {
            if let (V::P(k), V::P(i)) = (&args[0], &args[1]) {
                let (k, i) = (k.clone(), i.clone());
                let k = inner(ip.read(&mut st, &k));
                let i = inner(ip.read(&mut st, &i));
                ret1!(V::Agg(vec![k, i].into()));
            }
        }
        if name.starts_with("decrypt_padded") && args.len() == 2 {
            if let (V::Agg(f), Some(m), ty::Adt(_, ra)) = (&args[0], ip.models.get("m_decrypt").copied(), ret.kind()) {
                if f.len() == 2 {
                    let a16 = Ty::new_array(tcx, tcx.types.u8, 16);
                    let g = tcx.mk_args(&[ra[1]]);
                    return Some(ip.call(st, m, g, vec![f[0].clone(), f[1].clone(), args[1].clone()], vec![a16, a16, atys[1]], ret));
                }
            }
        }
    }
    if ip.opts.text {
        if let Some(r) = ip.front_call(st.clone(), kd, ki, ga, args, ret) {
            return Some(r);
        }
    }
    if ki.krate == "unicode_width" && ip.opts.text {
        return ip.text_call(st.clone(), &ki.full, name, kd.trait_.as_deref(), kd.self_ty, ga, args, ret);
    }
    if !is_std {
        return None;
    }
    if let ("retain", "Vec", Some(m)) = (name, kd.head.as_str(), ip.models.get("m_retain").copied()) {
        let g = tcx.mk_args(&[ga[0], ga[2]]);
        return Some(ip.call(st, m, g, args.to_vec(), atys.to_vec(), ret));
    }
    // ---- redirect iterator consumers to simple loops
    if kd.trait_.as_deref() == Some("Iterator") && kd.krate == "core" {
        let sty = kd.self_ty.unwrap();
        let native_it = matches!(ip.kind_of(sty), Special::SliceIter) ;
        match name {
            "fold" | "for_each" | "any" | "all" | "position" | "find" | "find_map" | "count" | "last" | "max" | "min" | "try_fold" | "try_for_each" => {
                if let Some(m) = ip.models.get(&format!("m_{name}")).copied() {
                    return Some(ip.call(st, m, ga, args.to_vec(), atys.to_vec(), ret));
                }
            }
            "nth" if !native_it => {
                if let Some(m) = ip.models.get("m_nth").copied() {
                    return Some(ip.call(st, m, ga, args.to_vec(), atys.to_vec(), ret));
                }
            }
            "sum" | "product" => {
                let s = ga.type_at(1);
                let item = iter_item(ip, sty);
                let m = match item.map(|t| t.kind()) {
                    Some(ty::Ref(..)) => format!("m_{name}_ref"),
                    _ => format!("m_{name}"),
                };
                if let Some(m) = ip.models.get(&m).copied() {
                    let g = tcx.mk_args(&[sty.into(), s.into()]);
                    return Some(ip.call(st, m, g, args.to_vec(), atys.to_vec(), ret));
                }
            }
            "collect" => {
                let item = iter_item(ip, sty);
                let h = head(ip, ret);
                let m = match (h.as_str(), item.map(|t| head(ip, t)).as_deref()) {
                    ("Vec", _) => "m_collect_vec",
                    ("String", Some("char")) => "m_collect_string_char",
                    ("String", Some("ref")) if item.is_some_and(|t| t.peel_refs().is_char()) => "m_collect_string_ref_char",
                    ("String", Some("ref")) if item.is_some_and(|t| t.peel_refs().is_str()) => "m_collect_string_str",
                    ("String", Some("String")) => "m_collect_string_string",
                    ("ArrayVec", _) => "m_collect_arrayvec",
                    ("Result", _) => "m_collect_result_vec",
                    ("Option", _) => "m_collect_option_vec",
                    _ => "",
                };
                if let Some(m) = ip.models.get(m).copied() {
                    let g = match h.as_str() {
                        "ArrayVec" => {
                            let ty::Adt(_, aa) = ret.kind() else { unreachable!() };
                            tcx.mk_args(&[sty.into(), aa[0], aa[1]])
                        }
                        "Result" => {
                            let ty::Adt(_, aa) = ret.kind() else { unreachable!() };
                            let vt = aa.type_at(0);
                            if head(ip, vt) != "Vec" {
                                return None;
                            }
                            let ty::Adt(_, va) = vt.kind() else { unreachable!() };
                            tcx.mk_args(&[sty.into(), va[0], aa[1]])
                        }
                        "Option" => {
                            let ty::Adt(_, aa) = ret.kind() else { unreachable!() };
                            let vt = aa.type_at(0);
                            if head(ip, vt) != "Vec" {
                                return None;
                            }
                            let ty::Adt(_, va) = vt.kind() else { unreachable!() };
                            tcx.mk_args(&[sty.into(), va[0]])
                        }
                        _ => ty::GenericArgs::for_item(tcx, m, |p, _| if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { tcx.lifetimes.re_erased.into() } else { sty.into() }),
                    };
                    return Some(ip.call(st, m, g, args.to_vec(), atys.to_vec(), ret));
                }
                *ip.opaque_calls.entry(format!("collect into {h}")).or_insert(0) += 1;
                let v = ip.materialize(&mut st, ret, "col");
                ret1!(v);
            }
            _ => {}
        }
        if native_it || matches!(args.first(), Some(V::It(_))) || it_behind(ip, &mut st, args) {
            match name {
                "next" => return iter_next(ip, st, args, ret, false),
                "nth" => {
                    let Some((n, _)) = arg_int(args, 1) else { return None };
                    return iter_nth(ip, st, args, n, ret);
                }
                "size_hint" => {
                    if let V::It(i) = deref1(ip, &mut st, &args[0]) {
                        ret1!(agg(vec![vus(i.len), some(vus(i.len))]));
                    }
                }
                "by_ref" => ret1!(args[0].clone()),
                _ => {}
            }
        }
        if name == "next" && matches!(kd.head.as_str(), "Range" | "RangeInclusive") {
            return range_next(ip, st, args, kd.head == "RangeInclusive", false);
        }
        if name == "nth" && kd.head == "Range" {
            return None;
        }
    }
    if kd.trait_.as_deref() == Some("DoubleEndedIterator") {
        let sty = kd.self_ty.unwrap();
        if matches!(ip.kind_of(sty), Special::SliceIter) {
            if name == "next_back" {
                return iter_next(ip, st, args, ret, true);
            }
            if name == "rfold" || name == "rfind" {
                return None;
            }
        }
        if name == "next_back" && matches!(kd.head.as_str(), "Range" | "RangeInclusive") {
            return range_next(ip, st, args, kd.head == "RangeInclusive", true);
        }
        if name == "rfold" || name == "rfind" || name == "try_rfold" {
            if let Some(m) = ip.models.get(&format!("m_{name}")).copied() {
                return Some(ip.call(st, m, ga, args.to_vec(), atys.to_vec(), ret));
            }
        }
    }
    if kd.trait_.as_deref() == Some("ExactSizeIterator") && name == "len" {
        if let V::It(i) = deref1(ip, &mut st, &args[0]) {
            ret1!(vus(i.len));
        }
    }
    if ki.full.contains("::zip::") && name == "new" && ki.head == "Zip" {
        // Zip::new(a, b): fields a, b, index, len
        ret1!(agg(vec![args[0].clone(), args[1].clone(), vus(cst(0)), vus(cst(0))]));
    }
    if kd.head == "Zip" && name == "next" {
        if let Some(m) = ip.models.get("m_zip_next").copied() {
            // m_zip_next<A, B>(a: &mut A, b: &mut B)
            let ty::Adt(_, za) = kd.self_ty.unwrap().kind() else { return None };
            let V::P(p) = &args[0] else { return None };
            let mut pa = (**p).clone();
            pa.path.push(Pj::F(0));
            let mut pb = (**p).clone();
            pb.path.push(Pj::F(1));
            let g = tcx.mk_args(&[za[0], za[1]]);
            return Some(ip.call(st, m, g, vec![V::P(Rc::new(pa)), V::P(Rc::new(pb))], vec![], ret));
        }
    }
    // ---- IntoIterator
    if kd.trait_.as_deref() == Some("IntoIterator") && name == "into_iter" {
        let sty = kd.self_ty.unwrap();
        match sty.kind() {
            ty::Array(..) => {
                if let V::Seq(s) = &args[0] {
                    ret1!(V::It(Rc::new(It { kind: ItKind::Own((**s).clone()), off: cst(0), len: s.len })));
                }
            }
            ty::Adt(..) if matches!(ip.kind_of(sty), Special::Vec | Special::ArrayVec) => {
                if let V::Seq(s) = &args[0] {
                    ret1!(V::It(Rc::new(It { kind: ItKind::Own((**s).clone()), off: cst(0), len: s.len })));
                }
            }
            ty::Ref(_, t, m) => {
                if matches!(t.kind(), ty::Slice(_) | ty::Array(..)) || matches!(ip.kind_of(*t), Special::Vec | Special::ArrayVec) {
                    if let Some((p, o, l)) = ip.as_slice(&mut st, &args[0]) {
                        let mut p = p;
                        p.mt = m.is_mut();
                        ret1!(V::It(Rc::new(It { kind: ItKind::Ref(p), off: o, len: l })));
                    }
                }
            }
            _ => {}
        }
        return None;
    }
    // ---- Deref & co
    if matches!((kd.trait_.as_deref(), name), (Some("Deref"), "deref") | (Some("DerefMut"), "deref_mut") | (Some("AsRef"), "as_ref") | (Some("AsMut"), "as_mut") | (Some("Borrow"), "borrow")) {
        let sty = kd.self_ty.unwrap();
        let mt = name.contains("mut");
        let to = pointee(ret);
        match ip.kind_of(sty) {
            Special::Vec | Special::Str | Special::ArrayVec => {
                if to.is_some_and(|t| matches!(t.kind(), ty::Slice(_) | ty::Str)) {
                    if let Some((p, o, l)) = ip.as_slice(&mut st, &args[0]) {
                        ret1!(ip.mk_slice(&p, o, l, mt));
                    }
                } else {
                    ret1!(args[0].clone());
                }
            }
            Special::Box => {
                if let V::P(p) = &args[0] {
                    let v = ip.read(&mut st, p);
                    ret1!(v);
                }
            }
            _ => {}
        }
        if matches!(sty.kind(), ty::Slice(_) | ty::Str | ty::Array(..)) && to.is_some_and(|t| matches!(t.kind(), ty::Slice(_) | ty::Str)) {
            if let Some((p, o, l)) = ip.as_slice(&mut st, &args[0]) {
                ret1!(ip.mk_slice(&p, o, l, mt));
            }
        }
    }
    if matches!((kd.trait_.as_deref(), name), (Some("Borrow"), "borrow") | (Some("BorrowMut"), "borrow_mut")) && pointee(ret) == kd.self_ty {
        ret1!(args[0].clone());
    }
    // ---- Clone / ToOwned
    if kd.trait_.as_deref() == Some("Clone") && name == "clone" {
        let sty = kd.self_ty.unwrap();
        let special = matches!(ip.kind_of(sty), Special::Vec | Special::Str | Special::ArrayVec | Special::SliceIter);
        if special || sty.is_trivially_pure_clone_copy() || matches!(sty.kind(), ty::Array(..) | ty::Ref(..)) || is_plain(ip, sty, 6) {
            if let V::P(p) = &args[0] {
                let v = ip.read(&mut st, p);
                ret1!(v);
            }
        }
        if matches!(sty.kind(), ty::Closure(..) | ty::Tuple(_)) {
            if let V::P(p) = &args[0] {
                let v = ip.read(&mut st, p);
                ret1!(v);
            }
        }
    }
    // ---- conversions producing owned sequences
    let to_owned_seq = matches!((kd.trait_.as_deref(), name), (Some("ToOwned"), "to_owned")) || (ki.head == "slice" && name == "to_vec") || (kd.head == "str" && matches!(name, "to_string" | "to_owned" | "into_string")) || (kd.head == "String" && matches!(name, "to_string"));
    if to_owned_seq {
        if let Some((p, o, l)) = ip.as_slice(&mut st, &args[0]) {
            let s = ip.subseq(&mut st, &p, o, l);
            ret1!(V::Seq(Rc::new(s)));
        }
    }
    if kd.trait_.as_deref() == Some("From") && name == "from" {
        let sty = kd.self_ty.unwrap();
        if matches!(ip.kind_of(sty), Special::Vec | Special::Str) {
            match &args[0] {
                V::Seq(s) => ret1!(V::Seq(s.clone())),
                V::P(_) => {
                    if let Some((p, o, l)) = ip.as_slice(&mut st, &args[0]) {
                        let s = ip.subseq(&mut st, &p, o, l);
                        ret1!(V::Seq(Rc::new(s)));
                    }
                }
                V::I(..) if sty.is_adt() => {
                    let v = ip.opaque_string(&mut st);
                    ret1!(v);
                }
                _ => {}
            }
        }
    }
    // ---- TryFrom slices to arrays
    if matches!((kd.trait_.as_deref(), name), (Some("TryFrom"), "try_from")) {
        let sty = kd.self_ty.unwrap();
        let (arr, byref) = match sty.kind() {
            ty::Array(..) => (sty, false),
            ty::Ref(_, t, _) if t.is_array() => (*t, true),
            _ => (sty, false),
        };
        if arr.is_array() {
            let n = ip.array_len(arr)?;
            // a vector by value is handed back if it does not fit
            if let V::Seq(s) = &args[0] {
                let (a, b) = ip.fork(st, eq0(addc(s.len, -n)));
                let mut out = vec![];
                if let Some(a) = a {
                    out.push((a, ok(V::Seq(Rc::new(Seq { len: cst(n), cap: None, ..(**s).clone() })))));
                }
                if let Some(b) = b {
                    out.push((b, err(args[0].clone())));
                }
                return Some(out);
            }
            let (p, o, l) = ip.as_slice(&mut st, &args[0])?;
            let c = eq0(addc(l, -n));
            let (a, b) = ip.fork(st, c);
            let mut out = vec![];
            if let Some(mut s) = a {
                let v = if byref { ip.mk_slice(&p, o, cst(n), false) } else { V::Seq(Rc::new(ip.subseq(&mut s, &p, o, cst(n)))) };
                out.push((s, ok(v)));
            }
            if let Some(s) = b {
                out.push((s, err(agg(vec![unit()]))));
            }
            return Some(out);
        }
    }
    // ---- Index
    if matches!((kd.trait_.as_deref(), name), (Some("Index"), "index") | (Some("IndexMut"), "index_mut")) {
        let mt = name == "index_mut";
        let it = ga.type_at(1);
        let (p, o, l) = ip.as_slice(&mut st, &args[0])?;
        if let V::I(i, _) = &args[1] {
            let c = ge0(addc(sub(l, *i), -1));
            ip.need(&mut st, c, "panic", "index out of bounds");
            let q = ip.elem(&p, add(o, *i), mt);
            ret1!(V::P(Rc::new(q)));
        }
        let (s, e) = ip.range_of(&mut st, it, &args[1], l)?;
        ip.need(&mut st, ge0(sub(e, s)), "panic", "slice index starts after its end");
        ip.need(&mut st, ge0(sub(l, e)), "panic", "slice end out of range");
        if kd.head == "str" || kd.head == "String" {
            let mut okb = (as_cst(st.facts.simp(s)) == Some(0) || st.facts.simp(s) == st.facts.simp(l)) && (st.facts.simp(e) == st.facts.simp(l) || as_cst(st.facts.simp(e)) == Some(0));
            if !okb && ip.opts.text {
                let q = ip.subseq(&mut st, &p, o, l);
                okb = ip.boundary(&mut st, &q, s) && ip.boundary(&mut st, &q, e);
            }
            ip.oblige("panic", "string slice on a character boundary", okb, if okb { String::new() } else { "character boundary not shown".into() });
        }
        ret1!(ip.mk_slice(&p, add(o, s), sub(e, s), mt));
    }
    // ---- equality on sequences
    if kd.trait_.as_deref() == Some("PartialEq") && matches!(name, "eq" | "ne") {
        let a = deref1(ip, &mut st, &args[0]);
        let b = deref1(ip, &mut st, &args[1]);
        let sty = kd.self_ty.unwrap();
        let seqish = matches!(sty.kind(), ty::Slice(_) | ty::Str | ty::Array(..) | ty::Ref(..)) || matches!(ip.kind_of(sty), Special::Vec | Special::Str | Special::ArrayVec);
        let intish = ik_of(tcx, sty).is_some();
        if seqish || intish || is_plain_enum(sty) {
            let text = |t: Ty<'tcx>| t.peel_refs().is_str() || matches!(t.peel_refs().kind(), ty::Adt(a, _) if tcx.item_name(a.did()).as_str() == "String");
            if text(sty) {
                if let (Some(x), Some(y)) = (ip.text_of(&mut st, &args[0]), ip.text_of(&mut st, &args[1])) {
                    let c = ip.eq_seq(&mut st, &x, &y, 8).unwrap_or_else(|| fresh("eq", 0, 1));
                    ret1!(vbool(if name == "ne" { not(c) } else { c }));
                }
            }
            let (a, b) = if matches!(sty.kind(), ty::Slice(_) | ty::Str) { (args[0].clone(), args[1].clone()) } else { (a, b) };
            let c = match ip.eq_v(&mut st, &a, &b, 8) {
                Some(c) => c,
                None => fresh("eq", 0, 1),
            };
            ret1!(vbool(if name == "ne" { not(c) } else { c }));
        }
    }
    if kd.trait_.as_deref() == Some("PartialEq") && name == "ne" {
        // default method
        return None;
    }
    if matches!(kd.trait_.as_deref(), Some("Ord")) && name == "cmp" && args.len() == 2 {
        let sty = ga.types().next();
        let bytes = sty.is_some_and(|t| t.is_str() || matches!(t.kind(), ty::Slice(e) if *e == ip.tcx.types.u8));
        if let (true, Some(m)) = (ip.opts.text && bytes, ip.models.get("m_cmp_bytes").copied()) {
            let t = Ty::new_imm_ref(ip.tcx, ip.tcx.lifetimes.re_erased, Ty::new_slice(ip.tcx, ip.tcx.types.u8));
            return Some(ip.call(st, m, ip.tcx.mk_args(&[]), args.to_vec(), vec![t, t], ret));
        }
    }
    // ---- integer ordering helpers
    if matches!(kd.trait_.as_deref(), Some("Ord")) && matches!(name, "min" | "max" | "clamp") {
        if let (Some((a, k)), Some((b, _))) = (arg_int(args, 0), arg_int(args, 1)) {
            if name == "clamp" {
                let Some((c, _)) = arg_int(args, 2) else { return None };
                let t1 = fmax(&st, a, b);
                let t2 = fmin(&st, t1, c);
                ret1!(V::I(t2, k));
            }
            // fork keeps linear facts
            let c = ge0(sub(b, a));
            let (x, y) = ip.fork(st, c);
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, V::I(if name == "min" { a } else { b }, k)));
            }
            if let Some(s) = y {
                out.push((s, V::I(if name == "min" { b } else { a }, k)));
            }
            return Some(out);
        }
    }
    if ip.opts.text {
        if let Some(r) = ip.text_call(st.clone(), &ki.full, name, kd.trait_.as_deref(), kd.self_ty, ga, args, ret) {
            return Some(r);
        }
    }
    // checks of unsafe code inside the standard library
    if name == "precondition_check" && is_std {
        ret1!(unit());
    }
    // ---- mem
    match ki.full.as_str() {
        "alloc::boxed::box_assume_init_into_vec_unsafe" => {
            let V::P(p) = &args[0] else { return None };
            let mut q = (**p).clone();
            q.path.extend([Pj::F(1), Pj::F(0)]);
            let v = ip.read(&mut st, &q);
            if !matches!(v, V::Seq(_)) {
                return None;
            }
            ret1!(v);
        }
        "core::mem::swap" => {
            let (V::P(p), V::P(q)) = (&args[0], &args[1]) else { return None };
            let (a, b) = (ip.read(&mut st, p), ip.read(&mut st, q));
            ip.write(&mut st, p, b);
            ip.write(&mut st, q, a);
            ret1!(unit());
        }
        "core::mem::replace" => {
            let V::P(p) = &args[0] else { return None };
            let a = ip.read(&mut st, p);
            ip.write(&mut st, p, args[1].clone());
            ret1!(a);
        }
        "core::mem::forget" | "core::mem::drop" | "core::hint::black_box" => ret1!(unit()),
        "core::slice::raw::from_ref" | "core::array::from_ref" => {
            let V::P(p) = &args[0] else { return None };
            let v = ip.read(&mut st, p);
            let t = ga.type_at(0);
            let ty2 = Ty::new_slice(tcx, t);
            let id = ip.alloc(&mut st, ty2, V::Seq(Rc::new(Seq { len: cst(1), items: Items::Known(Rc::new(vec![v])), cap: None, last: None })));
            ret1!(V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: Some((cst(0), cst(1))), mt: false })));
        }
        "core::str::converts::from_utf8" => {
            let (p, o, l) = ip.as_slice(&mut st, &args[0])?;
            let s = ip.subseq(&mut st, &p, o, l);
            // known ASCII constants are always valid
            let known = if ip.opts.text { crate::text::bytes_of(&s, &st).map(|b| std::str::from_utf8(&b).is_ok()).or_else(|| ip.ascii(&mut st, &s).then_some(true)) } else { None };
            let c = match &s.items {
                _ if known.is_some() => cst(known.unwrap() as i128),
                Items::Content(c, _) => match cnode(*c) {
                    CN::Bytes(b) if b.is_ascii() => cst(1),
                    _ => mk(Node::App { f: format!("utf8_{c}").into(), args: Rc::from([st.facts.simp(l)]), lo: 0, hi: 1 }),
                },
                _ => fresh("utf8", 0, 1),
            };
            let (a, b) = ip.fork(st, c);
            let mut out = vec![];
            if let Some(s) = a {
                out.push((s, ok(ip.mk_slice(&p, o, l, false))));
            }
            if let Some(s) = b {
                let s = s;
                out.push((s, err(V::Top)));
            }
            return Some(out);
        }
        "alloc::fmt::format" => {
            let v = ip.opaque_string(&mut st);
            ret1!(v);
        }
        "alloc::slice::concat" | "alloc::str::join" => return None,
        _ => {}
    }
    // ---- fmt
    if ki.full.starts_with("core::fmt::rt::") {
        if ip.opts.check_fmt && matches!(name, "new_display" | "new_lower_hex" | "new_upper_hex" | "new_debug") {
            let t = ga.types().next().unwrap();
            check_fmt(ip, &st, name, t, &args[0]);
        }
        let v = V::Top;
        let _ = ret;
        ret1!(v);
    }
    if ki.full.starts_with("core::fmt::") && ip.opts.check_fmt && matches!(kd.trait_.as_deref(), Some("Display" | "LowerHex" | "UpperHex")) && kd.head == "ref" && name == "fmt" {
        return None;
    }
    if ki.full.starts_with("core::fmt::") {
        let v = ip.materialize(&mut st, ret, "fmt");
        ret1!(v);
    }
    if kd.trait_.as_deref() == Some("Write") && matches!(name, "write_fmt" | "write_str" | "write_char") {
        // growing text sink
        if matches!(ip.kind_of(kd.self_ty.unwrap()), Special::Str | Special::ArrayVec | Special::Vec) {
            if let V::P(p) = &args[0] {
                let cap = ip.cap_of(kd.self_ty.unwrap());
                let old = ip.read(&mut st, p);
                let V::Seq(os) = old else { return None };
                let nl = fresh("slen", 0, cap.unwrap_or(i64::MAX as i128));
                st.facts.assume_ge0(sub(nl, os.len));
                ip.write(&mut st, p, V::Seq(Rc::new(Seq { len: nl, items: Items::Content(fresh_content("str"), U8), cap, last: None })));
            }
            let v = if ip.kind_of(kd.self_ty.unwrap()) == Special::Str { ok(unit()) } else { ip.materialize(&mut st, ret, "w") };
            ret1!(v);
        }
        if kd.head == "Formatter" || kd.head == "dyn" {
            let v = ip.materialize(&mut st, ret, "w");
            ret1!(v);
        }
    }
    if kd.trait_.as_deref() == Some("ToString") && name == "to_string" {
        if ip.opts.check_fmt {
            let t = kd.self_ty.unwrap();
            check_fmt(ip, &st, "new_display", t, &args[0]);
        }
        let v = ip.opaque_string(&mut st);
        ret1!(v);
    }
    // ---- Option / Result unwraps: explicit obligations
    if matches!(ki.head.as_str(), "Option" | "Result") && kd.trait_.is_none() && matches!(name, "unwrap" | "expect" | "unwrap_err" | "expect_err") {
        let want: u32 = match (ki.head.as_str(), name) {
            ("Option", _) => 1,
            (_, "unwrap" | "expect") => 0,
            _ => 1,
        };
        let V::En(e) = &args[0] else {
            ip.oblige("panic", &format!("{name} on None/Err"), false, "unknown value".into());
            let v = ip.materialize(&mut st, ret, "u");
            ret1!(v);
        };
        let c = eq0(addc(e.d, -(want as i128)));
        ip.need(&mut st, c, "panic", &format!("{}::{name}", ki.head));
        if st.facts.dead {
            return Some(vec![]);
        }
        let v = e.vars.iter().find(|x| x.0 == want).and_then(|x| x.1.first().cloned()).unwrap_or(V::Top);
        let v = if matches!(v, V::Top) { ip.materialize(&mut st, ret, "u") } else { v };
        ret1!(v);
    }
    // ---- default for integers / sequences
    if kd.trait_.as_deref() == Some("Default") && name == "default" {
        let sty = kd.self_ty.unwrap();
        if matches!(ip.kind_of(sty), Special::Vec | Special::Str | Special::ArrayVec) {
            ret1!(ip.new_seq(sty));
        }
    }
    if kd.trait_.as_deref() == Some("Extend") && name == "extend" {
        let sty = kd.self_ty.unwrap();
        let it = ga.types().nth(2)?;
        let m = match ip.kind_of(sty) {
            Special::Vec => "m_extend_vec",
            Special::ArrayVec => "m_extend_arrayvec",
            Special::Str => {
                if let V::P(p) = &args[0] {
                    let v = ip.opaque_string(&mut st);
                    ip.write(&mut st, p, v);
                    ret1!(unit());
                }
                return None;
            }
            _ => return None,
        };
        let elem = ip.elem_ty(sty)?;
        let mdef = ip.models.get(m).copied()?;
        // Extend<&T> copies
        let arg_t = ga.type_at(1);
        if arg_t.is_ref() {
            let mdef = ip.models.get("m_extend_vec_ref").copied()?;
            let g = tcx.mk_args(&[elem.into(), it.into()]);
            return Some(ip.call(st, mdef, g, args.to_vec(), atys.to_vec(), ret));
        }
        let g = if m == "m_extend_arrayvec" {
            let ty::Adt(_, aa) = sty.kind() else { unreachable!() };
            tcx.mk_args(&[elem.into(), it.into(), aa[1]])
        } else {
            tcx.mk_args(&[elem.into(), it.into()])
        };
        return Some(ip.call(st, mdef, g, args.to_vec(), atys.to_vec(), ret));
    }
    if kd.trait_.is_some() && ki.head != "slice" {
        let _ = d;
        let _ = inst;
        return float_traits(ip, st, kd, args, ret);
    }
    // ---- inherent methods
    match ki.head.as_str() {
        "slice" | "str" => slice_method(ip, st, ki, ga, name, args, ret),
        "Vec" | "String" | "ArrayVec" | "ArrayString" => vec_method(ip, st, ki, ga, name, args, ret),
        "array" => array_method(ip, st, name, args, ret),
        "int" => int_method(ip, st, ki, name, args, ret),
        "float" => float_method(ip, st, name, args, ret),
        "char" => char_method(ip, st, name, args, ret),
        "Box" if name == "new" => {
            let t = ga.type_at(0);
            let id = ip.alloc(&mut st, t, args[0].clone());
            ret1!(V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: None, mt: true })));
        }
        "Box" if name == "new_uninit" => {
            // the cell of a vec![..] literal: a union of nothing and the value
            let ty::Adt(_, g) = ret.kind() else { return None };
            let id = ip.alloc(&mut st, g.type_at(0), V::Agg(vec![unit(), V::Agg(vec![V::Top].into())].into()));
            ret1!(V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: None, mt: true })));
        }
        "Iter" | "IterMut" | "IntoIter" if matches!(name, "as_slice" | "as_mut_slice") => {
            if let V::It(i) = deref1(ip, &mut st, &args[0]) {
                if let ItKind::Ref(p) = &i.kind {
                    ret1!(ip.mk_slice(p, i.off, i.len, false));
                }
            }
            None
        }
        "Chars" if name == "as_str" => {
            let v = ip.materialize(&mut st, ret, "chs");
            ret1!(v);
        }
        _ => None,
    }
}
fn is_plain_enum(t: Ty<'_>) -> bool {
    match t.kind() {
        ty::Adt(d, _) => d.is_enum() && d.variants().iter().all(|v| v.fields.is_empty()),
        _ => false,
    }
}
/// types whose clone is a plain copy of the abstract value
fn is_plain<'tcx>(ip: &Interp<'tcx>, t: Ty<'tcx>, d: u32) -> bool {
    if d == 0 {
        return false;
    }
    ip.tcx.type_is_copy_modulo_regions(ip.env, t)
}
pub fn const_str<'tcx>(ip: &mut Interp<'tcx>, st: &mut State<'tcx>, v: &V) -> Option<String> {
    let (p, o, l) = ip.as_slice(st, v)?;
    let s = ip.subseq(st, &p, o, l);
    let n = as_cst(s.len)?;
    match &s.items {
        Items::Content(c, _) => match cnode(*c) {
            CN::Bytes(b) => Some(String::from_utf8_lossy(&b[..n as usize]).into_owned()),
            _ => None,
        },
        _ => None,
    }
}
pub fn deref1<'tcx>(ip: &mut Interp<'tcx>, st: &mut State<'tcx>, v: &V) -> V {
    match v {
        V::P(p) => {
            if let Some((o, l)) = p.sl {
                let s = ip.subseq(st, &Ptr { sl: None, ..(**p).clone() }, o, l);
                return V::Seq(Rc::new(s));
            }
            ip.read(st, p)
        }
        o => o.clone(),
    }
}
fn it_behind<'tcx>(ip: &mut Interp<'tcx>, st: &mut State<'tcx>, args: &[V]) -> bool {
    match args.first() {
        Some(V::P(p)) if p.sl.is_none() => {
            let v = ip.base_v(st, p.base);
            if matches!(v, V::Top) {
                return false;
            }
            matches!(ip.read(st, p), V::It(_))
        }
        _ => false,
    }
}
fn iter_item<'tcx>(ip: &Interp<'tcx>, sty: Ty<'tcx>) -> Option<Ty<'tcx>> {
    let tcx = ip.tcx;
    let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
    let item = tcx.associated_items(it).in_definition_order().find(|a| a.is_type())?;
    let t = Ty::new_projection(tcx, ty::IsRigid::No, item.def_id, [sty]);
    Some(tcx.normalize_erasing_regions(ip.env, ty::Unnormalized::new(t)))
}
fn check_fmt<'tcx>(ip: &mut Interp<'tcx>, st: &State<'tcx>, which: &str, t: Ty<'tcx>, arg: &V) {
    let tcx = ip.tcx;
    // peel references: formatting a reference formats the referent
    let mut t = t;
    let mut arg = arg.clone();
    let mut st = st.clone();
    while let ty::Ref(_, x, _) = t.kind() {
        t = *x;
        arg = match &arg {
            V::P(p) => ip.read(&mut st, p),
            _ => V::Top,
        };
    }
    let ty::Adt(a, _) = t.kind() else { return };
    let krate = tcx.crate_name(a.did().krate).to_string();
    if !is_workspace(&krate) {
        return;
    }
    if which == "new_debug" {
        return;
    }
    let tn = match which {
        "new_display" => rustc_span::sym::Display,
        "new_lower_hex" => rustc_span::Symbol::intern("LowerHex"),
        _ => rustc_span::Symbol::intern("UpperHex"),
    };
    let Some(tr) = tcx.get_diagnostic_item(tn).or_else(|| tcx.all_traits_including_private().find(|x| tcx.item_name(*x) == tn && tcx.crate_name(x.krate).as_str() == "core")) else { return };
    let Some(m) = tcx.associated_items(tr).in_definition_order().find(|x| x.is_fn()) else { return };
    let ga = tcx.mk_args(&[t.into()]);
    if let Ok(Some(i)) = Instance::try_resolve(tcx, ip.env, m.def_id, ga) {
        let f = V::Top;
        let _ = ip.exec_fn(st, i, vec![arg, f]);
    }
}
fn fmin(st: &State<'_>, a: T, b: T) -> T {
    if st.facts.entails(sub(b, a)) {
        a
    } else if st.facts.entails(sub(a, b)) {
        b
    } else {
        bits::bin(B::Min, a, b)
    }
}
fn fmax(st: &State<'_>, a: T, b: T) -> T {
    if st.facts.entails(sub(b, a)) {
        b
    } else if st.facts.entails(sub(a, b)) {
        a
    } else {
        bits::bin(B::Max, a, b)
    }
}

fn range_next<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, args: &[V], incl: bool, back: bool) -> Option<R<'tcx>> {
    let V::P(p) = &args[0] else { return None };
    let V::Agg(f) = ip.read(&mut st, p) else { return None };
    let (V::I(a, k), V::I(b, _)) = (&f[0], &f[1]) else {
        ip.unsup("range iteration over non-integers".into());
        return None;
    };
    let (a, b, k) = (*a, *b, *k);
    let mut out = vec![];
    if !incl {
        let (s, n) = ip.fork(st, ge0(addc(sub(b, a), -1)));
        if let Some(mut s) = s {
            let (na, nb, v) = if back { (a, addc(b, -1), addc(b, -1)) } else { (addc(a, 1), b, a) };
            ip.write(&mut s, p, agg(vec![V::I(na, k), V::I(nb, k)]));
            out.push((s, some(V::I(v, k))));
        }
        if let Some(n) = n {
            out.push((n, none()));
        }
        return Some(out);
    }
    // inclusive: (start, end, exhausted). Normal form used here: an exhausted range has start = end + 1.
    let V::I(ex, _) = &f[2] else { return None };
    let exh = *ex;
    let c = and_b(not(exh), ge0(sub(b, a)));
    let (s, n) = ip.fork(st, c);
    if let Some(s) = s {
        let (na, nb, v) = if back { (a, addc(b, -1), b) } else { (addc(a, 1), b, a) };
        let mut s = s;
        ip.write(&mut s, p, agg(vec![V::I(na, k), V::I(nb, k), vbool(cst(0))]));
        out.push((s, some(V::I(v, k))));
    }
    if let Some(n) = n {
        out.push((n, none()));
    }
    Some(out)
}

fn item_at<'tcx>(ip: &mut Interp<'tcx>, st: &mut State<'tcx>, it: &It, i: T) -> V {
    match &it.kind {
        ItKind::Ref(p) => V::P(Rc::new(ip.elem(p, i, p.mt))),
        ItKind::Own(s) => {
            let ty = ip.tcx.types.unit;
            let _ = ty;
            match (&s.items, as_cst(st.facts.simp(i))) {
                (Items::Content(c, k), _) => V::I(read_content(*c, i, *k), *k),
                (Items::Known(f), Some(n)) => f.get(n as usize).cloned().unwrap_or(V::Top),
                (Items::Known(f), None) => {
                    if f.is_empty() {
                        return V::Top;
                    }
                    let mut acc = summarise(&f[0], &st.facts);
                    for x in &f[1..] {
                        acc = summ_join(&acc, &summarise(x, &st.facts));
                    }
                    freshen(&acc)
                }
                (Items::Summ(x), _) => freshen(x),
                (Items::Top, _) => V::Top,
            }
        }
        _ => V::Top,
    }
}
fn iter_next<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, args: &[V], ret: Ty<'tcx>, back: bool) -> Option<R<'tcx>> {
    let V::P(p) = &args[0] else { return None };
    let v = ip.read(&mut st, p);
    let V::It(it) = v else {
        ip.unsup(format!("next on {}", short(&v)));
        let v = ip.materialize(&mut st, ret, "nx");
        return Some(one(st, v));
    };
    let item_ty = match ret.kind() {
        ty::Adt(_, a) => a.type_at(0),
        _ => return None,
    };
    let mut out = vec![];
    match &it.kind {
        ItKind::Ref(_) | ItKind::Own(_) => {
            let (s, n) = ip.fork(st, ge0(addc(it.len, -1)));
            if let Some(mut s) = s {
                let (idx, noff) = if back { (addc(add(it.off, it.len), -1), it.off) } else { (it.off, addc(it.off, 1)) };
                let mut v = item_at(ip, &mut s, &it, idx);
                if matches!(v, V::Top) {
                    v = ip.materialize(&mut s, item_ty, "it");
                }
                ip.write(&mut s, p, V::It(Rc::new(It { kind: it.kind.clone(), off: noff, len: addc(it.len, -1) })));
                out.push((s, some(v)));
            }
            if let Some(n) = n {
                out.push((n, none()));
            }
        }
        ItKind::Chunks(q, size, exact) => {
            if back {
                ip.unsup("chunks from the back".into());
            }
            let size = *size;
            let (s, n) = ip.fork(st, ge0(sub(it.len, size)));
            if let Some(mut s) = s {
                let v = ip.mk_slice(q, it.off, size, q.mt);
                ip.write(&mut s, p, V::It(Rc::new(It { kind: it.kind.clone(), off: add(it.off, size), len: sub(it.len, size) })));
                out.push((s, some(v)));
            }
            if let Some(n) = n {
                if *exact {
                    out.push((n, none()));
                } else {
                    let (m, z) = ip.fork(n, ge0(addc(it.len, -1)));
                    if let Some(mut m) = m {
                        let v = ip.mk_slice(q, it.off, it.len, q.mt);
                        ip.write(&mut m, p, V::It(Rc::new(It { kind: it.kind.clone(), off: add(it.off, it.len), len: cst(0) })));
                        out.push((m, some(v)));
                    }
                    if let Some(z) = z {
                        out.push((z, none()));
                    }
                }
            }
        }
        ItKind::Windows(q, size) => {
            let size = *size;
            let (s, n) = ip.fork(st, ge0(sub(it.len, size)));
            if let Some(mut s) = s {
                let v = ip.mk_slice(q, it.off, size, false);
                ip.write(&mut s, p, V::It(Rc::new(It { kind: it.kind.clone(), off: addc(it.off, 1), len: addc(it.len, -1) })));
                out.push((s, some(v)));
            }
            if let Some(n) = n {
                out.push((n, none()));
            }
        }
        ItKind::Chars => {
            let (s, n) = ip.fork(st, ge0(addc(it.len, -1)));
            if let Some(mut s) = s {
                let v = ip.materialize(&mut s, item_ty, "ch");
                let k = fresh("chlen", 1, 4);
                s.facts.assume_ge0(sub(it.len, k));
                ip.write(&mut s, p, V::It(Rc::new(It { kind: ItKind::Chars, off: add(it.off, k), len: sub(it.len, k) })));
                out.push((s, some(v)));
            }
            if let Some(n) = n {
                out.push((n, none()));
            }
        }
        ItKind::Opaque => {
            let (s, n) = ip.fork(st, ge0(addc(it.len, -1)));
            if let Some(mut s) = s {
                let v = ip.materialize(&mut s, item_ty, "it");
                ip.write(&mut s, p, V::It(Rc::new(It { kind: ItKind::Opaque, off: addc(it.off, 1), len: addc(it.len, -1) })));
                out.push((s, some(v)));
            }
            if let Some(n) = n {
                out.push((n, none()));
            }
        }
    }
    Some(out)
}
fn iter_nth<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, args: &[V], n: T, ret: Ty<'tcx>) -> Option<R<'tcx>> {
    let V::P(p) = &args[0] else { return None };
    let V::It(it) = ip.read(&mut st, p) else { return None };
    if !matches!(it.kind, ItKind::Ref(_) | ItKind::Own(_)) {
        ip.unsup("nth on a non-slice iterator".into());
        let v = ip.materialize(&mut st, ret, "nth");
        return Some(one(st, v));
    }
    let item_ty = match ret.kind() {
        ty::Adt(_, a) => a.type_at(0),
        _ => return None,
    };
    let (s, z) = ip.fork(st, ge0(addc(sub(it.len, n), -1)));
    let mut out = vec![];
    if let Some(mut s) = s {
        let mut v = item_at(ip, &mut s, &it, add(it.off, n));
        if matches!(v, V::Top) {
            v = ip.materialize(&mut s, item_ty, "it");
        }
        let m = addc(n, 1);
        ip.write(&mut s, p, V::It(Rc::new(It { kind: it.kind.clone(), off: add(it.off, m), len: sub(it.len, m) })));
        out.push((s, some(v)));
    }
    if let Some(mut z) = z {
        ip.write(&mut z, p, V::It(Rc::new(It { kind: it.kind.clone(), off: add(it.off, it.len), len: cst(0) })));
        out.push((z, none()));
    }
    Some(out)
}

fn slice_method<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, ki: &Key<'tcx>, ga: ty::GenericArgsRef<'tcx>, name: &str, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
    macro_rules! ret1 {
        ($v:expr) => {{
            let v = $v;
            return Some(vec![(st, v)]);
        }};
    }
    let is_str = ki.head == "str";
    let Some((p, o, l)) = args.first().and_then(|a| ip.as_slice(&mut st, a)) else {
        if name == "len" {
            ret1!(vus(fresh("len", 0, i64::MAX as i128)));
        }
        return None;
    };
    let mt = name.contains("mut");
    if is_str && ip.opts.text {
        if let Some(r) = ip.str_method(st.clone(), name, &p, o, l, args) {
            return Some(r);
        }
    }
    match name {
        "len" => ret1!(vus(l)),
        "is_empty" => {
            let c = eq0(st.facts.simp(l));
            ret1!(vbool(c));
        }
        "get" | "get_mut" => {
            let it = ga.types().last()?;
            let (cond, v) = if let V::I(i, _) = &args[1] {
                (ge0(addc(sub(l, *i), -1)), V::P(Rc::new(ip.elem(&p, add(o, *i), mt))))
            } else {
                let (s, e) = ip.range_of(&mut st, it, &args[1], l)?;
                let mut c = and_b(ge0(sub(e, s)), ge0(sub(l, e)));
                if is_str {
                    let okb = (as_cst(st.facts.simp(s)) == Some(0) || st.facts.simp(s) == st.facts.simp(l)) && (st.facts.simp(e) == st.facts.simp(l) || as_cst(st.facts.simp(e)) == Some(0));
                    if !okb && !(ip.opts.text && {
                        let q = ip.subseq(&mut st, &p, o, l);
                        ip.boundary(&mut st, &q, s) && ip.boundary(&mut st, &q, e)
                    }) {
                        c = and_b(c, fresh("bnd", 0, 1));
                    }
                }
                (c, ip.mk_slice(&p, add(o, s), sub(e, s), mt))
            };
            // conjunctions are assumed conjunct by conjunct
            let (a, b) = ip.fork(st, cond);
            let mut out = vec![];
            if let Some(s) = a {
                out.push((s, some(v)));
            }
            if let Some(s) = b {
                out.push((s, none()));
            }
            Some(out)
        }
        "first" | "last" | "first_mut" | "last_mut" | "split_first" | "split_last" => {
            let (a, b) = ip.fork(st, ge0(addc(l, -1)));
            let mut out = vec![];
            if let Some(s) = a {
                let i = if name.contains("first") { o } else { addc(add(o, l), -1) };
                let e = V::P(Rc::new(ip.elem(&p, i, mt)));
                let v = match name {
                    "split_first" => agg(vec![e, ip.mk_slice(&p, addc(o, 1), addc(l, -1), false)]),
                    "split_last" => agg(vec![e, ip.mk_slice(&p, o, addc(l, -1), false)]),
                    _ => e,
                };
                out.push((s, some(v)));
            }
            if let Some(s) = b {
                out.push((s, none()));
            }
            Some(out)
        }
        "split_at" | "split_at_mut" | "split_at_checked" => {
            let V::I(i, _) = &args[1] else { return None };
            let c = ge0(sub(l, *i));
            let v = agg(vec![ip.mk_slice(&p, o, *i, mt), ip.mk_slice(&p, add(o, *i), sub(l, *i), mt)]);
            if name == "split_at_checked" {
                let (a, b) = ip.fork(st, c);
                let mut out = vec![];
                if let Some(s) = a {
                    out.push((s, some(v)));
                }
                if let Some(s) = b {
                    out.push((s, none()));
                }
                return Some(out);
            }
            ip.need(&mut st, c, "panic", "split_at out of range");
            ret1!(v);
        }
        "iter" | "iter_mut" => {
            let mut p = p;
            p.mt = mt;
            ret1!(V::It(Rc::new(It { kind: ItKind::Ref(p), off: o, len: l })))
        }
        "chunks" | "chunks_exact" | "chunks_mut" => {
            let V::I(n, _) = &args[1] else { return None };
            ip.need(&mut st, ge0(addc(*n, -1)), "panic", "chunk size is not zero");
            let mut p = p;
            p.mt = mt;
            ret1!(V::It(Rc::new(It { kind: ItKind::Chunks(p, *n, name == "chunks_exact"), off: o, len: l })))
        }
        "windows" => {
            let V::I(n, _) = &args[1] else { return None };
            ip.need(&mut st, ge0(addc(*n, -1)), "panic", "window size is not zero");
            ret1!(V::It(Rc::new(It { kind: ItKind::Windows(p, *n), off: o, len: l })))
        }
        "chars" | "char_indices" => ret1!(V::It(Rc::new(It { kind: ItKind::Chars, off: cst(0), len: l }))),
        "as_bytes" | "as_str" | "as_slice" | "as_mut_slice" => ret1!(ip.mk_slice(&p, o, l, mt)),
        "copy_from_slice" | "clone_from_slice" => {
            let (p2, o2, l2) = ip.as_slice(&mut st, &args[1])?;
            ip.need(&mut st, eq0(sub(l, l2)), "panic", "copy_from_slice lengths equal");
            let s = ip.subseq(&mut st, &p2, o2, l2);
            ip.write_range(&mut st, &p, o, &s);
            ret1!(unit());
        }
        "fill" => {
            if let Some(n) = as_cst(st.facts.simp(l)) {
                if n <= 600 {
                    let s = Seq { len: cst(n), items: Items::Known(Rc::new(vec![args[1].clone(); n as usize])), cap: None, last: None };
                    ip.write_range(&mut st, &p, o, &s);
                    ret1!(unit());
                }
            }
            let s = Seq { len: l, items: Items::Summ(summarise(&args[1], &st.facts)), cap: None, last: None };
            ip.write_range(&mut st, &p, o, &s);
            ret1!(unit());
        }
        "swap" => {
            let (V::I(i, _), V::I(j, _)) = (&args[1], &args[2]) else { return None };
            ip.need(&mut st, ge0(addc(sub(l, *i), -1)), "panic", "swap index");
            ip.need(&mut st, ge0(addc(sub(l, *j), -1)), "panic", "swap index");
            let (pi, pj) = (ip.elem(&p, add(o, *i), true), ip.elem(&p, add(o, *j), true));
            let (a, b) = (ip.read(&mut st, &pi), ip.read(&mut st, &pj));
            ip.write(&mut st, &pi, b);
            ip.write(&mut st, &pj, a);
            ret1!(unit());
        }
        "reverse" => {
            if let Some(n) = as_cst(st.facts.simp(l)) {
                if n <= 600 {
                    let s = ip.subseq(&mut st, &p, o, l);
                    let mut v: Vec<V> = (0..n).map(|i| ip.elem_v(&mut st, &s, i)).collect();
                    v.reverse();
                    let s = Seq { len: cst(n), items: Items::Known(Rc::new(v)), cap: None, last: None };
                    ip.write_range(&mut st, &p, o, &s);
                    ret1!(unit());
                }
            }
            let s = ip.subseq(&mut st, &p, o, l);
            let items = match (&s.items, int_kind(&s)) {
                (_, Some(k)) => Items::Content(fresh_content("rev"), k),
                (Items::Summ(_), _) => s.items.clone(),
                _ => Items::Top,
            };
            let s = Seq { len: l, items, cap: None, last: None };
            ip.write_range(&mut st, &p, o, &s);
            ret1!(unit());
        }
        "contains" => {
            if is_str {
                ret1!(vbool(fresh("contains", 0, 1)));
            }
            let x = deref1(ip, &mut st, &args[1]);
            let s = ip.subseq(&mut st, &p, o, l);
            if let Some(n) = as_cst(s.len) {
                if n <= 64 {
                    let mut acc = cst(0);
                    for i in 0..n {
                        let e = ip.elem_v(&mut st, &s, i);
                        let c = ip.eq_v(&mut st, &e, &x, 4).unwrap_or_else(|| fresh("eq", 0, 1));
                        acc = or_b(acc, c);
                    }
                    ret1!(vbool(acc));
                }
            }
            ret1!(vbool(fresh("contains", 0, 1)));
        }
        "starts_with" | "ends_with" if !is_str || matches!(args[1], V::P(_)) => {
            let (p2, o2, l2) = ip.as_slice(&mut st, &args[1])?;
            let s2 = ip.subseq(&mut st, &p2, o2, l2);
            if let Some(n) = as_cst(s2.len) {
                if n <= 32 {
                    let lc = ge0(addc(l, -n));
                    let mut acc = match st.facts.truth(lc) {
                        Some(b) => cst(b as i128),
                        None => lc,
                    };
                    let base = if name == "starts_with" { o } else { addc(add(o, l), -n) };
                    for i in 0..n {
                        let q = ip.elem(&p, addc(base, i), false);
                        let a = ip.read(&mut st, &q);
                        let b = ip.elem_v(&mut st, &s2, i);
                        let c = ip.eq_v(&mut st, &a, &b, 4)?;
                        acc = and_b(acc, c);
                    }
                    ret1!(vbool(acc));
                }
            }
            ret1!(vbool(fresh("sw", 0, 1)));
        }
        "to_vec" | "into_vec" | "to_owned" | "into_boxed_slice" => {
            let s = ip.subseq(&mut st, &p, o, l);
            ret1!(V::Seq(Rc::new(s)));
        }
        "is_char_boundary" | "is_ascii" => ret1!(vbool(fresh(name, 0, 1))),
        "trim" | "trim_end" | "trim_start" | "trim_end_matches" | "trim_start_matches" | "trim_matches" => {
            if matches!(name, "trim" | "trim_end" | "trim_start") {
                let q = ip.subseq(&mut st, &p, o, l);
                if let Some(t) = lit_bytes(&st, &q) {
                    let t = String::from_utf8_lossy(&t).into_owned();
                    let r = match name {
                        "trim" => t.trim(),
                        "trim_end" => t.trim_end(),
                        _ => t.trim_start(),
                    };
                    let skip = r.as_ptr() as usize - t.as_ptr() as usize;
                    ret1!(ip.mk_slice(&p, addc(o, skip as i128), cst(r.len() as i128), false));
                }
            }
            let nl = fresh("tl", 0, i64::MAX as i128);
            let no = fresh("to", 0, i64::MAX as i128);
            st.facts.assume_ge0(sub(l, add(nl, no)));
            ret1!(ip.mk_slice(&p, add(o, no), nl, false));
        }
        "replace" | "to_uppercase" | "to_lowercase" | "to_ascii_uppercase" | "to_ascii_lowercase" | "repeat" if is_str => {
            if matches!(name, "to_ascii_uppercase" | "to_ascii_lowercase") {
                let q = ip.subseq(&mut st, &p, o, l);
                if let Some(t) = lit_bytes(&st, &q) {
                    let t = if name == "to_ascii_uppercase" { t.to_ascii_uppercase() } else { t.to_ascii_lowercase() };
                    ret1!(V::Seq(Rc::new(str_seq(&t))));
                }
            }
            let v = ip.opaque_string(&mut st);
            ret1!(v);
        }
        "concat" | "join" => {
            if ip.opts.text {
                let s = ip.subseq(&mut st, &p, o, l);
                let sep = if name == "join" { args.get(1).and_then(|x| ip.text_of(&mut st, x)) } else { Some(crate::value::str_seq(b"")) };
                if let (Some(sep), Items::Known(f), Some(n)) = (sep, &s.items, as_cst(st.facts.simp(s.len))) {
                    let parts: Option<Vec<Seq>> = f.iter().take(n as usize).map(|x| ip.text_of(&mut st, x)).collect();
                    if let Some(parts) = parts {
                        let mut r = crate::value::str_seq(b"");
                        for (i, x) in parts.iter().enumerate() {
                            if i > 0 {
                                r = ip.concat(&mut st, &r, &sep);
                            }
                            r = ip.concat(&mut st, &r, x);
                        }
                        ret1!(V::Seq(Rc::new(r)));
                    }
                }
            }
            let v = ip.materialize(&mut st, ret, "join");
            ret1!(v);
        }
        "sort" | "sort_by" | "sort_by_key" | "sort_unstable" => {
            let s = ip.subseq(&mut st, &p, o, l);
            let items = match (&s.items, int_kind(&s)) {
                (_, Some(k)) => Items::Content(fresh_content("sort"), k),
                _ => Items::Top,
            };
            let s = Seq { len: l, items, cap: None, last: None };
            ip.write_range(&mut st, &p, o, &s);
            ret1!(unit());
        }
        "parse" | "find" | "rfind" | "split" | "splitn" | "lines" | "split_whitespace" | "split_once" | "strip_prefix" | "strip_suffix" | "bytes" if is_str => {
            if name == "bytes" {
                return None;
            }
            if matches!(name, "split" | "splitn" | "lines" | "split_whitespace") {
                ret1!(V::It(Rc::new(It { kind: ItKind::Opaque, off: cst(0), len: addc(l, 1) })));
            }
            if name == "find" || name == "rfind" {
                let i = fresh("at", 0, i64::MAX as i128);
                let mut s2 = st.clone();
                s2.facts.assume_ge0(sub(l, i));
                let c = fresh("found", 0, 1);
                s2.push_path(c, Ok(1));
                st.push_path(c, Ok(0));
                return Some(vec![(s2, some(vus(i))), (st, none())]);
            }
            let v = ip.materialize(&mut st, ret, "parse");
            ret1!(v);
        }
        "as_ptr" | "as_mut_ptr" => {
            let q = ip.elem(&p, o, mt);
            ret1!(V::P(Rc::new(q)));
        }
        "position" => None,
        _ => None,
    }
}
fn array_method<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, name: &str, args: &[V], _ret: Ty<'tcx>) -> Option<R<'tcx>> {
    match name {
        "as_slice" | "as_mut_slice" => {
            let (p, o, l) = ip.as_slice(&mut st, &args[0])?;
            let v = ip.mk_slice(&p, o, l, name.contains("mut"));
            Some(one(st, v))
        }
        _ => None,
    }
}
fn vec_method<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, ki: &Key<'tcx>, ga: ty::GenericArgsRef<'tcx>, name: &str, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
    let _ = ga;
    macro_rules! ret1 {
        ($v:expr) => {{
            let v = $v;
            return Some(vec![(st, v)]);
        }};
    }
    let fixed = matches!(ki.head.as_str(), "ArrayVec" | "ArrayString");
    match name {
        "new" | "with_capacity" | "new_const" => ret1!(ip.new_seq(ret)),
        "from" if ki.head == "ArrayString" => return None,
        "from_utf8" => {
            if let V::Seq(q) = &args[0] {
                let plain = ip.opts.text && ip.ascii(&mut st, q);
                let known = if ip.opts.text { crate::text::bytes_of(q, &st).map(|b| std::str::from_utf8(&b).is_ok()) } else { None };
                let c = if plain { cst(1) } else if let Some(x) = known { cst(x as i128) } else { fresh("utf8", 0, 1) };
                let (a, b) = ip.fork(st, c);
                let mut out = vec![];
                if let Some(s) = a {
                    out.push((s, ok(args[0].clone())));
                }
                if let Some(s) = b {
                    out.push((s, err(crate::value::agg(vec![args[0].clone(), V::Top]))));
                }
                return Some(out);
            }
            return None;
        }
        "from_utf8_lossy" | "from_utf16" => {
            if ip.opts.text && name == "from_utf8_lossy" {
                if let Some(q) = ip.text_of(&mut st, &args[0]) {
                    if let Some(b) = crate::text::bytes_of(&q, &st) {
                        ret1!(crate::value::en(1, vec![V::Seq(Rc::new(crate::value::str_seq(String::from_utf8_lossy(&b).as_bytes())))]));
                    }
                    if ip.ascii(&mut st, &q) {
                        ret1!(crate::value::en(1, vec![V::Seq(Rc::new(q))]));
                    }
                }
            }
            let v = ip.materialize(&mut st, ret, "lossy");
            ret1!(v);
        }
        "into_bytes" | "into_boxed_slice" | "into_string" | "into_boxed_str" => ret1!(args[0].clone()),
        _ => {}
    }
    let Some(V::P(p)) = args.first() else { return None };
    if p.sl.is_some() {
        return None;
    }
    let p = (**p).clone();
    let V::Seq(s) = ip.read(&mut st, &p) else {
        ip.unsup(format!("{}::{name} on unknown value", ki.head));
        let v = ip.materialize(&mut st, ret, "vec");
        ret1!(v);
    };
    match name {
        "len" => ret1!(vus(s.len)),
        "is_empty" => {
            let c = eq0(st.facts.simp(s.len));
            ret1!(vbool(c))
        }
        "capacity" => match s.cap {
            Some(c) => ret1!(vus(cst(c))),
            None => ret1!(vus(fresh("cap", 0, i64::MAX as i128))),
        },
        "is_full" => {
            let c = s.cap.unwrap_or(0);
            ret1!(vbool(eq0(addc(st.facts.simp(s.len), -c))))
        }
        "remaining_capacity" => {
            let c = s.cap.unwrap_or(0);
            ret1!(vus(sub(cst(c), s.len)))
        }
        "as_slice" | "as_str" | "as_bytes" | "as_mut_slice" => ret1!(ip.mk_slice(&p, cst(0), s.len, name.contains("mut"))),
        "push" | "try_push" | "push_unchecked" => {
            let v = args[1].clone();
            let v = if ki.head == "String" || ki.head == "ArrayString" { V::Top } else { v };
            if let Some(t) = ip.elem_ty(ip.ptr_ty(&st, &p).unwrap_or(ret)) {
                ip.on_push(&mut st, t, &s, &v);
            }
            if !fixed {
                if ki.head == "String" {
                    if let (true, V::I(c, _)) = (ip.opts.text, &args[1]) {
                        if let Some(x) = crate::text::char_seq(&st, *c) {
                            ip.append(&mut st, &p, &x);
                            ret1!(unit());
                        }
                    }
                    let n = fresh("chl", 1, 4);
                    let nl = add(s.len, n);
                    ip.write(&mut st, &p, V::Seq(Rc::new(Seq { len: nl, items: Items::Content(fresh_content("str"), U8), cap: None, last: None })));
                    ret1!(unit());
                }
                let ns = ip.push_seq(&mut st, &s, v);
                ip.write(&mut st, &p, V::Seq(Rc::new(ns)));
                ret1!(unit());
            }
            let cap = s.cap.unwrap_or(0);
            let c = ge0(sub(cst(cap - 1), s.len));
            if name == "push" {
                ip.need(&mut st, c, "panic", "push into a full ArrayVec");
                let ns = ip.push_seq(&mut st, &s, v);
                ip.write(&mut st, &p, V::Seq(Rc::new(ns)));
                ret1!(unit());
            }
            let (a, b) = ip.fork(st, c);
            let mut out = vec![];
            if let Some(mut a) = a {
                let ns = ip.push_seq(&mut a, &s, v.clone());
                ip.write(&mut a, &p, V::Seq(Rc::new(ns)));
                out.push((a, ok(unit())));
            }
            if let Some(b) = b {
                out.push((b, err(agg(vec![v]))));
            }
            Some(out)
        }
        "pop" => {
            let (a, b) = ip.fork(st, ge0(addc(s.len, -1)));
            let mut out = vec![];
            if let Some(mut a) = a {
                let e = match s.last_v() {
                    Some(v) => v,
                    None => ip.read(&mut a, &ip.elem(&p, addc(s.len, -1), false)),
                };
                let items = match &s.items {
                    Items::Known(f) if !f.is_empty() => Items::Known(Rc::new(f[..f.len() - 1].to_vec())),
                    o => o.clone(),
                };
                ip.write(&mut a, &p, V::Seq(Rc::new(Seq { len: addc(s.len, -1), items, cap: s.cap, last: None })));
                out.push((a, some(e)));
            }
            if let Some(b) = b {
                out.push((b, none()));
            }
            Some(out)
        }
        "clear" => {
            ip.write(&mut st, &p, V::Seq(Rc::new(Seq { len: cst(0), items: Items::Known(Rc::new(vec![])), cap: s.cap, last: None })));
            ret1!(unit());
        }
        "extend_from_slice" | "push_str" | "try_extend_from_slice" | "try_push_str" => {
            let (p2, o2, l2) = match ip.as_slice(&mut st, &args[1]) {
                Some(x) => x,
                None => {
                    let v = ip.opaque_string(&mut st);
                    ip.write(&mut st, &p, v);
                    ret1!(unit());
                }
            };
            let src = ip.subseq(&mut st, &p2, o2, l2);
            if fixed {
                let c = ge0(sub(cst(s.cap.unwrap_or(0)), add(s.len, l2)));
                if name == "push_str" || name == "extend_from_slice" {
                    ip.need(&mut st, c, "panic", "push_str into a full buffer");
                } else {
                    let (a, b) = ip.fork(st, c);
                    let mut out = vec![];
                    if let Some(mut a) = a {
                        let ns = ip.concat(&mut a, &s, &src);
                        ip.write(&mut a, &p, V::Seq(Rc::new(ns)));
                        out.push((a, ok(unit())));
                    }
                    if let Some(b) = b {
                        out.push((b, err(agg(vec![args[1].clone()]))));
                    }
                    return Some(out);
                }
            }
            let ns = ip.concat(&mut st, &s, &src);
            ip.write(&mut st, &p, V::Seq(Rc::new(ns)));
            ret1!(unit());
        }
        "truncate" => {
            let V::I(n, _) = &args[1] else { return None };
            if ki.head == "String" {
                ip.oblige("panic", "String::truncate", false, "character boundary not shown".into());
            }
            let (a, b) = ip.fork(st, ge0(addc(sub(s.len, *n), -1)));
            let mut out = vec![];
            if let Some(mut a) = a {
                let ss = ip.subseq(&mut a, &p, cst(0), *n);
                ip.write(&mut a, &p, V::Seq(Rc::new(Seq { cap: s.cap, ..ss })));
                out.push((a, unit()));
            }
            if let Some(b) = b {
                out.push((b, unit()));
            }
            Some(out)
        }
        "reserve" | "shrink_to_fit" | "reserve_exact" => ret1!(unit()),
        "resize" => {
            let V::I(n, _) = &args[1] else { return None };
            let items = match (int_kind(&s), &args[2]) {
                (_, V::I(_, k)) => Items::Content(fresh_content("rsz"), *k),
                _ => Items::Top,
            };
            ip.write(&mut st, &p, V::Seq(Rc::new(Seq { len: *n, items, cap: s.cap, last: None })));
            ret1!(unit());
        }
        "insert" | "remove" | "swap_remove" | "drain" | "retain" | "dedup" | "append" | "split_off" | "insert_str" => {
            if matches!(name, "insert" | "remove" | "swap_remove") {
                let V::I(i, _) = &args[1] else { return None };
                let c = if name == "insert" { ge0(sub(s.len, *i)) } else { ge0(addc(sub(s.len, *i), -1)) };
                ip.need(&mut st, c, "panic", &format!("Vec::{name} index"));
                let nl = addc(s.len, if name == "insert" { 1 } else { -1 });
                if ki.head == "String" {
                    if let (true, "insert", V::I(c, _)) = (ip.opts.text, name, &args[args.len() - 1]) {
                        if let Some(x) = crate::text::char_seq(&st, *c) {
                            let a = ip.subseq(&mut st, &p, cst(0), *i);
                            let b = ip.subseq(&mut st, &p, *i, sub(s.len, *i));
                            let v = ip.concat(&mut st, &a, &x);
                            let v = ip.concat(&mut st, &v, &b);
                            ip.write(&mut st, &p, V::Seq(Rc::new(Seq { cap: s.cap, ..v })));
                            ret1!(unit());
                        }
                    }
                    let v = ip.opaque_string(&mut st);
                    ip.write(&mut st, &p, v);
                    let v = ip.materialize(&mut st, ret, "rm");
                    ret1!(v);
                }
                if let (Items::Known(f), Some(k)) = (&s.items, as_cst(*i)) {
                    let mut f = f.to_vec();
                    let k = k as usize;
                    let old = match name {
                        "insert" if k <= f.len() => {
                            f.insert(k, args[2].clone());
                            Some(unit())
                        }
                        "remove" if k < f.len() => Some(f.remove(k)),
                        "swap_remove" if k < f.len() => Some(f.swap_remove(k)),
                        _ => None,
                    };
                    if let Some(old) = old {
                        ip.write(&mut st, &p, V::Seq(Rc::new(Seq { len: nl, items: Items::Known(Rc::new(f)), cap: s.cap, last: None })));
                        ret1!(old);
                    }
                }
                let el = ip.elem(&p, *i, false);
                let old = if name == "insert" { unit() } else { ip.read(&mut st, &el) };
                let items = match int_kind(&s) {
                    Some(k) => Items::Content(fresh_content("ins"), k),
                    None => Items::Top,
                };
                ip.write(&mut st, &p, V::Seq(Rc::new(Seq { len: nl, items, cap: s.cap, last: None })));
                ret1!(old);
            }
            ip.unsup(format!("Vec::{name}"));
            let items = match int_kind(&s) {
                Some(k) => Items::Content(fresh_content("ins"), k),
                None => Items::Top,
            };
            ip.write(&mut st, &p, V::Seq(Rc::new(Seq { len: fresh("len", 0, i64::MAX as i128), items, cap: s.cap, last: None })));
            let v = ip.materialize(&mut st, ret, "rm");
            ret1!(v);
        }
        _ => None,
    }
}
fn int_method<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, ki: &Key<'tcx>, name: &str, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
    macro_rules! ret1 {
        ($v:expr) => {{
            let v = $v;
            return Some(vec![(st, v)]);
        }};
    }
    let tcx = ip.tcx;
    let k = ik_of(tcx, ki.self_ty.unwrap())?;
    // byte conversions
    match name {
        "from_le_bytes" | "from_be_bytes" | "from_ne_bytes" => {
            let V::Seq(s) = &args[0] else { ret1!(V::I(fresh_k("fb", k), k)) };
            let n = as_cst(s.len)?;
            let mut acc = cst(0);
            for i in 0..n {
                let V::I(t, _) = ip.elem_v(&mut st, s, i) else { ret1!(V::I(fresh_k("fb", k), k)) };
                let pos = if name == "from_be_bytes" { n - 1 - i } else { i };
                acc = lincomb(acc, 1, t, 1i128 << (8 * pos));
            }
            let t = if k.signed { bits::wrap(acc, k) } else { acc };
            ret1!(V::I(t, k));
        }
        "to_le_bytes" | "to_be_bytes" | "to_ne_bytes" => {
            let (t, _) = arg_int(args, 0)?;
            let t = if k.signed { bits::wrap(t, IK { bits: k.bits, signed: false }) } else { t };
            let n = k.bits / 8;
            let mut v: Vec<V> = (0..n).map(|i| V::I(bits::field(t, 8 * i, 8), U8)).collect();
            if name == "to_be_bytes" {
                v.reverse();
            }
            ret1!(V::Seq(Rc::new(Seq { len: cst(n as i128), items: Items::Known(Rc::new(v)), cap: None, last: None })));
        }
        _ => {}
    }
    if name == "from_str_radix" {
        if let (true, Some(m), ty::Adt(_, ra)) = (ip.opts.text && k == U8, ip.models.get("m_radix_u8").copied(), ret.kind()) {
            let g = ip.tcx.mk_args(&[ra[1]]);
            let ats = vec![Ty::new_imm_ref(ip.tcx, ip.tcx.lifetimes.re_erased, ip.tcx.types.str_), ip.tcx.types.u32];
            return Some(ip.call(st, m, g, args.to_vec(), ats, ret));
        }
        let v = ip.materialize(&mut st, ret, "radix");
        ret1!(v);
    }
    let deref_first = match args.first() {
        Some(V::P(_)) => deref1(ip, &mut st, &args[0]),
        Some(v) => v.clone(),
        None => return None,
    };
    let V::I(a, _) = deref_first else { return None };
    let a = st.facts.simp(a);
    let b = arg_int(args, 1).map(|x| st.facts.simp(x.0));
    let arith = |ip: &mut Interp<'tcx>, st: &State<'tcx>, op: BinOp, b: T| ip.arith(st, op, a, b, k);
    let split = |s: &str| -> Option<(String, BinOp)> {
        let (p, o) = s.split_once('_')?;
        let op = match o {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "div" => BinOp::Div,
            "rem" => BinOp::Rem,
            "shl" => BinOp::Shl,
            "shr" => BinOp::Shr,
            _ => return None,
        };
        Some((p.to_string(), op))
    };
    if let Some((pre, op)) = split(name) {
        let b = b?;
        match (pre.as_str(), op) {
            ("checked", BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let t = arith(ip, &st, op, b);
                let c = in_range(&st, t, k);
                let (x, y) = ip.fork(st, c);
                let mut out = vec![];
                if let Some(s) = x {
                    out.push((s, some(V::I(t, k))));
                }
                if let Some(s) = y {
                    out.push((s, none()));
                }
                return Some(out);
            }
            ("checked", BinOp::Div | BinOp::Rem) => {
                let (z, nz) = ip.fork(st, eq0(b));
                let mut out = vec![];
                if let Some(s) = z {
                    out.push((s, none()));
                }
                if let Some(s) = nz {
                    let t = ip.arith(&s, op, a, b, k);
                    out.push((s, some(V::I(t, k))));
                }
                return Some(out);
            }
            ("checked", BinOp::Shl | BinOp::Shr) => {
                let (x, y) = ip.fork(st, ge0(sub(cst(k.bits as i128 - 1), b)));
                let mut out = vec![];
                if let Some(s) = x {
                    let t = ip.arith(&s, op, a, b, k);
                    out.push((s, some(V::I(t, k))));
                }
                if let Some(s) = y {
                    out.push((s, none()));
                }
                return Some(out);
            }
            ("wrapping", BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let t = arith(ip, &st, op, b);
                let t = ip.clampk(&st, t, k);
                ret1!(V::I(t, k));
            }
            ("wrapping", BinOp::Shl | BinOp::Shr) => {
                let b2 = bits::field(b, 0, k.bits.trailing_zeros() as u8);
                let t = arith(ip, &st, op, b2);
                ret1!(V::I(t, k));
            }
            ("overflowing", BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let t = arith(ip, &st, op, b);
                let c = in_range(&st, t, k);
                let w = ip.clampk(&st, t, k);
                ret1!(agg(vec![V::I(w, k), vbool(not(c))]));
            }
            ("saturating", BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let t = arith(ip, &st, op, b);
                let (x, rest) = ip.fork(st, ge0(addc(t, -k.lo())));
                let mut out = vec![];
                if let Some(s) = x {
                    let (y, z) = ip.fork(s, ge0(sub(cst(k.hi()), t)));
                    if let Some(s) = y {
                        out.push((s, V::I(t, k)));
                    }
                    if let Some(s) = z {
                        out.push((s, V::I(cst(k.hi()), k)));
                    }
                }
                if let Some(s) = rest {
                    out.push((s, V::I(cst(k.lo()), k)));
                }
                return Some(out);
            }
            _ => {}
        }
    }
    match name {
        "pow" | "checked_pow" | "saturating_pow" | "wrapping_pow" => {
            let e = b?;
            let t = match (as_cst(a), as_cst(e)) {
                (_, Some(n)) if n <= 64 => {
                    let mut acc = cst(1);
                    for _ in 0..n {
                        acc = bits::bin(B::Mul, acc, a);
                        let (l, h) = st.facts.range(acc);
                        if l < -(1i128 << 100) || h > 1i128 << 100 {
                            acc = fresh("pow", -(1i128 << 100), 1i128 << 100);
                            break;
                        }
                    }
                    acc
                }
                (Some(base), None) => {
                    let (l, h) = st.facts.range(e);
                    if l >= 0 && h <= 64 {
                        let mut p: Vec<T> = vec![e];
                        let mut hi = 1i128;
                        let mut ok = true;
                        for n in 0..=h {
                            let Some(x) = base.checked_pow(n as u32) else {
                                ok = false;
                                break;
                            };
                            hi = hi.max(x);
                            p.push(cst(x));
                        }
                        if ok && hi < 1i128 << 100 { mkselect(e, &p[1..], 0) } else { fresh("pow", 0, 1i128 << 100) }
                    } else {
                        fresh("pow", 0, 1i128 << 100)
                    }
                }
                _ => fresh("pow", -(1i128 << 100), 1i128 << 100),
            };
            match name {
                "pow" => {
                    let c = in_range(&st, t, k);
                    ip.need(&mut st, c, "panic", "arithmetic overflow (pow)");
                    ret1!(V::I(t, k));
                }
                "checked_pow" => {
                    let c = in_range(&st, t, k);
                    let (x, y) = ip.fork(st, c);
                    let mut out = vec![];
                    if let Some(s) = x {
                        out.push((s, some(V::I(t, k))));
                    }
                    if let Some(s) = y {
                        out.push((s, none()));
                    }
                    Some(out)
                }
                "wrapping_pow" => {
                    let t = ip.clampk(&st, t, k);
                    ret1!(V::I(t, k))
                }
                _ => {
                    let c = in_range(&st, t, k);
                    let (x, y) = ip.fork(st, c);
                    let mut out = vec![];
                    if let Some(s) = x {
                        out.push((s, V::I(t, k)));
                    }
                    if let Some(s) = y {
                        out.push((s, V::I(cst(k.hi()), k)));
                    }
                    Some(out)
                }
            }
        }
        "abs" | "unsigned_abs" | "wrapping_abs" | "checked_abs" => {
            let kk = ik_of(tcx, ret).unwrap_or(k);
            let (x, y) = ip.fork(st, ge0(a));
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, V::I(a, kk)));
            }
            if let Some(mut s) = y {
                if name == "abs" {
                    let c = ge0(sub(cst(k.hi()), neg(a)));
                    ip.need(&mut s, c, "panic", "arithmetic overflow (abs)");
                }
                if name == "checked_abs" {
                    return None;
                }
                out.push((s, V::I(neg(a), kk)));
            }
            Some(out)
        }
        "abs_diff" => {
            let b = b?;
            let kk = ik_of(tcx, ret).unwrap_or(k);
            let (x, y) = ip.fork(st, ge0(sub(a, b)));
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, V::I(sub(a, b), kk)));
            }
            if let Some(s) = y {
                out.push((s, V::I(sub(b, a), kk)));
            }
            Some(out)
        }
        "count_ones" | "leading_zeros" | "trailing_zeros" | "count_zeros" | "leading_ones" | "trailing_ones" => {
            let kk = ik_of(tcx, ret).unwrap_or(k);
            if let Some(c) = as_cst(a) {
                let m = if k.bits >= 126 { u128::MAX } else { (1u128 << k.bits) - 1 };
                let u = (c as u128) & m;
                let w = k.bits as u32;
                let r = match name {
                    "count_ones" => u.count_ones(),
                    "count_zeros" => w - u.count_ones(),
                    "leading_zeros" => u.leading_zeros().saturating_sub(128 - w),
                    "trailing_zeros" => u.trailing_zeros().min(w),
                    "trailing_ones" => u.trailing_ones(),
                    _ => return None,
                };
                ret1!(V::I(cst(r as i128), kk));
            }
            ret1!(V::I(mk(Node::App { f: name.into(), args: Rc::from([a]), lo: 0, hi: k.bits as i128 }), kk));
        }
        "swap_bytes" | "reverse_bits" | "rotate_left" | "rotate_right" | "to_be" | "to_le" | "from_be" | "from_le" => {
            if name == "to_le" || name == "from_le" {
                ret1!(V::I(a, k));
            }
            if name == "swap_bytes" || name == "to_be" || name == "from_be" {
                let n = k.bits / 8;
                let mut acc = cst(0);
                let u = if k.signed { bits::wrap(a, IK { bits: k.bits, signed: false }) } else { a };
                for i in 0..n {
                    acc = lincomb(acc, 1, bits::field(u, 8 * i, 8), 1i128 << (8 * (n - 1 - i)));
                }
                let t = if k.signed { bits::wrap(acc, k) } else { acc };
                ret1!(V::I(t, k));
            }
            let mut ar = vec![a];
            ar.extend(b);
            ret1!(V::I(mk(Node::App { f: format!("{name}{}", k.bits).into(), args: ar.into(), lo: k.lo(), hi: k.hi() }), k));
        }
        "is_power_of_two" => ret1!(vbool(fresh("pow2", 0, 1))),
        "div_ceil" => {
            let b = b?;
            ip.need(&mut st, not(eq0(b)), "panic", "division by zero");
            let t = bits::bin(B::Div, addc(add(a, b), -1), b);
            ret1!(V::I(t, k));
        }
        "rem_euclid" | "div_euclid" if !k.signed => {
            let b = b?;
            ip.need(&mut st, not(eq0(b)), "panic", "division by zero");
            let t = bits::bin(if name == "rem_euclid" { B::Rem } else { B::Div }, a, b);
            ret1!(V::I(t, k));
        }
        "is_ascii_digit" | "is_ascii_hexdigit" | "is_ascii_alphabetic" | "is_ascii_uppercase" | "is_ascii_lowercase" | "is_ascii_alphanumeric" | "is_ascii_graphic" | "is_ascii_whitespace" | "is_ascii_control" | "is_ascii_punctuation" | "is_ascii" => ascii_class(ip, st, name, a),
        "to_ascii_uppercase" | "to_ascii_lowercase" => ret1!(V::I(mk(Node::App { f: name.into(), args: Rc::from([a]), lo: 0, hi: 255 }), k)),
        "signum" | "isqrt" | "ilog10" | "ilog2" => {
            let v = ip.materialize(&mut st, ret, name);
            ret1!(v);
        }
        _ => None,
    }
}
fn ascii_class<'tcx>(ip: &mut Interp<'tcx>, st: State<'tcx>, name: &str, a: T) -> Option<R<'tcx>> {
    let between = |lo: u8, hi: u8| and_b(ge0(addc(a, -(lo as i128))), ge0(sub(cst(hi as i128), a)));
    let c = match name {
        "is_ascii_digit" => between(b'0', b'9'),
        "is_ascii_uppercase" => between(b'A', b'Z'),
        "is_ascii_lowercase" => between(b'a', b'z'),
        "is_ascii_alphabetic" => or_b(between(b'A', b'Z'), between(b'a', b'z')),
        "is_ascii_alphanumeric" => or_b(or_b(between(b'A', b'Z'), between(b'a', b'z')), between(b'0', b'9')),
        "is_ascii_hexdigit" => or_b(or_b(between(b'A', b'F'), between(b'a', b'f')), between(b'0', b'9')),
        "is_ascii_graphic" => between(0x21, 0x7e),
        "is_ascii" => ge0(sub(cst(127), a)),
        "is_ascii_whitespace" => or_b(or_b(between(9, 10), between(12, 13)), eq0(addc(a, -32))),
        "is_ascii_punctuation" => or_b(or_b(between(0x21, 0x2f), between(0x3a, 0x40)), or_b(between(0x5b, 0x60), between(0x7b, 0x7e))),
        "is_ascii_control" => or_b(ge0(sub(cst(31), a)), eq0(addc(a, -127))),
        _ => fresh(name, 0, 1),
    };
    let _ = ip;
    let c = match st.facts.truth(c) {
        Some(b) => cst(b as i128),
        None => c,
    };
    Some(vec![(st, vbool(c))])
}
fn char_method<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, name: &str, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
    let a0 = match args.first() {
        Some(V::P(_)) => deref1(ip, &mut st, &args[0]),
        Some(v) => v.clone(),
        None => return None,
    };
    if name.starts_with("is_ascii") {
        if let V::I(a, _) = a0 {
            return ascii_class(ip, st, name, a);
        }
    }
    match name {
        "to_digit" => {
            let (V::I(a, _), Some((r, _))) = (&a0, arg_int(args, 1)) else { return None };
            let (a, r) = (*a, as_cst(r)?);
            if r > 10 && as_cst(a).is_none() {
                // hexadecimal: digit value unknown but in range
                let c = fresh("isdig", 0, 1);
                let (x, y) = ip.fork(st, c);
                let mut out = vec![];
                if let Some(s) = x {
                    out.push((s, some(V::I(mk(Node::App { f: "digit".into(), args: Rc::from([a, cst(r)]), lo: 0, hi: r - 1 }), IK { bits: 32, signed: false }))));
                }
                if let Some(s) = y {
                    out.push((s, none()));
                }
                return Some(out);
            }
            if let Some(c) = as_cst(a) {
                let ch = char::from_u32(c as u32)?;
                let v = match ch.to_digit(r as u32) {
                    Some(d) => some(V::I(cst(d as i128), IK { bits: 32, signed: false })),
                    None => none(),
                };
                return Some(one(st, v));
            }
            let c = and_b(ge0(addc(a, -48)), ge0(sub(cst(47 + r), a)));
            let (x, y) = ip.fork(st, c);
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, some(V::I(addc(a, -48), IK { bits: 32, signed: false }))));
            }
            if let Some(s) = y {
                out.push((s, none()));
            }
            Some(out)
        }
        "from_digit" => {
            let v = ip.materialize(&mut st, ret, "fd");
            Some(one(st, v))
        }
        "from_u32" => {
            let (t, _) = arg_int(args, 0)?;
            let okc = or_b(ge0(sub(cst(0xD7FF), t)), and_b(ge0(addc(t, -0xE000)), ge0(sub(cst(0x10FFFF), t))));
            let (x, y) = ip.fork(st, okc);
            let mut out = vec![];
            if let Some(s) = x {
                out.push((s, some(V::I(t, IK { bits: 32, signed: false }))));
            }
            if let Some(s) = y {
                out.push((s, none()));
            }
            Some(out)
        }
        "len_utf8" => Some(one(st, vus(fresh("l8", 1, 4)))),
        _ => {
            if ret.is_bool() {
                return Some(one(st, vbool(fresh(name, 0, 1))));
            }
            let v = ip.materialize(&mut st, ret, name);
            Some(one(st, v))
        }
    }
}
fn float_traits<'tcx>(_ip: &mut Interp<'tcx>, _st: State<'tcx>, _kd: &Key<'tcx>, _args: &[V], _ret: Ty<'tcx>) -> Option<R<'tcx>> {
    None
}
fn float_method<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, name: &str, args: &[V], ret: Ty<'tcx>) -> Option<R<'tcx>> {
    let f32_ = matches!(ret.kind(), ty::Float(ty::FloatTy::F32));
    match name {
        "from_le_bytes" | "from_be_bytes" => {
            let V::Seq(s) = &args[0] else { return Some(one(st, V::Fl(fresh_float()))) };
            let n = as_cst(s.len)?;
            let mut acc = cst(0);
            for i in 0..n {
                let V::I(t, _) = ip.elem_v(&mut st, s, i) else { return Some(one(st, V::Fl(fresh_float()))) };
                let pos = if name == "from_be_bytes" { n - 1 - i } else { i };
                acc = lincomb(acc, 1, t, 1i128 << (8 * pos));
            }
            Some(one(st, V::Fl(fop(if n == 4 { "frombits32" } else { "frombits64" }, &[acc]))))
        }
        "from_bits" => {
            let (t, k) = arg_int(args, 0)?;
            Some(one(st, V::Fl(fop(if k.bits == 32 { "frombits32" } else { "frombits64" }, &[t]))))
        }
        "to_bits" => {
            let V::Fl(t) = &args[0] else { return None };
            let kk = ik_of(ip.tcx, ret)?;
            if let Node::FOp(f, a) = node(*t) {
                if f.starts_with("frombits") {
                    return Some(one(st, V::I(a[0], kk)));
                }
            }
            Some(one(st, V::I(mk(Node::App { f: "fbits".into(), args: Rc::from([*t]), lo: kk.lo(), hi: kk.hi() }), kk)))
        }
        _ => {
            let mut ts = vec![];
            for a in args {
                match a {
                    V::Fl(t) | V::I(t, _) => ts.push(*t),
                    _ => {}
                }
            }
            // powi of exact integers
            if name == "powi" {
                if let (Some(x), Some(e)) = (fconst_of(ts[0]), ts.get(1).and_then(|t| as_cst(*t))) {
                    if !f32_ {
                        return Some(one(st, V::Fl(fconst(x.powi(e as i32)))));
                    }
                }
            }
            let n = format!("{name}{}", if f32_ { "32" } else { "" });
            match ret.kind() {
                ty::Float(_) => Some(one(st, V::Fl(fop(&n, &ts)))),
                ty::Bool => Some(one(st, vbool(mk(Node::App { f: n.into(), args: ts.into(), lo: 0, hi: 1 })))),
                _ => {
                    let v = ip.materialize(&mut st, ret, name);
                    Some(one(st, v))
                }
            }
        }
    }
}
pub fn in_range(st: &State<'_>, t: T, k: IK) -> T {
    let lo = addc(t, -k.lo());
    let hi = sub(cst(k.hi()), t);
    let mut c = cst(1);
    if !(st.facts.range(t).0 >= k.lo() || st.facts.entails(lo)) {
        c = and_b(c, ge0(lo));
    }
    if !(st.facts.range(t).1 <= k.hi() || st.facts.entails(hi)) {
        c = and_b(c, ge0(hi));
    }
    c
}
fn intrinsic<'tcx>(ip: &mut Interp<'tcx>, mut st: State<'tcx>, n: &str, inst: Instance<'tcx>, args: Vec<V>, atys: Vec<Ty<'tcx>>, ret: Ty<'tcx>) -> R<'tcx> {
    let tcx = ip.tcx;
    match n {
        "size_of" | "align_of" | "min_align_of" => {
            let t = inst.args.type_at(0);
            if let Ok(l) = tcx.layout_of(ip.env.as_query_input(t)) {
                let v = if n == "size_of" { l.size.bytes() } else { l.align.abi.bytes() };
                return one(st, vus(cst(v as i128)));
            }
            one(st, vus(fresh("sz", 0, 1 << 40)))
        }
        "likely" | "unlikely" | "black_box" | "transparent" => one(st, args[0].clone()),
        "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => one(st, unit()),
        "needs_drop" | "is_val_statically_known" | "const_eval_select_is_const" => one(st, vbool(cst(0))),
        "ub_checks" | "contract_checks" => one(st, vbool(cst(0))),
        "overflow_checks" => one(st, vbool(cst(1))),
        "transmute" | "transmute_unchecked" => {
            let v = ip.cast(&mut st, rustc_middle::mir::CastKind::Transmute, args[0].clone(), atys[0], ret);
            one(st, v)
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" => {
            if let (V::I(a, k), V::I(b, _)) = (&args[0], &args[1]) {
                let op = match n.rsplit('_').next().unwrap() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let t = ip.arith(&st, op, *a, *b, *k);
                let t = ip.clampk(&st, t, *k);
                return one(st, V::I(t, *k));
            }
            let v = ip.materialize(&mut st, ret, "i");
            one(st, v)
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            if let (V::I(a, k), V::I(b, _)) = (&args[0], &args[1]) {
                let op = match n {
                    "add_with_overflow" => BinOp::Add,
                    "sub_with_overflow" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let t = ip.arith(&st, op, *a, *b, *k);
                let c = in_range(&st, t, *k);
                let w = ip.clampk(&st, t, *k);
                return one(st, agg(vec![V::I(w, *k), vbool(not(c))]));
            }
            let v = ip.materialize(&mut st, ret, "i");
            one(st, v)
        }
        "discriminant_value" => {
            if let V::P(p) = &args[0] {
                let v = ip.read(&mut st, p);
                let t = pointee(atys[0]).unwrap();
                let r = ip.discriminant(&mut st, &v, t, ret);
                return one(st, r);
            }
            let v = ip.materialize(&mut st, ret, "i");
            one(st, v)
        }
        "abort" | "unreachable" => vec![],
        _ => {
            *ip.opaque_calls.entry(format!("intrinsic {n}")).or_insert(0) += 1;
            ip.havoc_call(st, &args, &atys, ret)
        }
    }
}
impl<'tcx> Interp<'tcx> {
    /// try to show `c` by splitting on if-then-else conditions occurring in it
    pub fn prove_by_cases(&mut self, st: &State<'tcx>, c: T, depth: u32) -> bool {
        let c = bits::expand(st.facts.simp(c));
        match st.facts.truth(c) {
            Some(b) => return b,
            None => {}
        }
        if depth == 0 {
            return false;
        }
        let conds = conds_of(c);
        for g in conds.into_iter().take(6) {
            if st.facts.truth(g).is_some() {
                continue;
            }
            let mut a = st.clone();
            let mut b = st.clone();
            let oa = a.facts.assume(g, true) && !a.facts.dead;
            let ob = b.facts.assume(g, false) && !b.facts.dead;
            return (!oa || self.prove_by_cases(&a, c, depth - 1)) && (!ob || self.prove_by_cases(&b, c, depth - 1));
        }
        false
    }
    pub fn on_push(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, s: &Seq, v: &V) {
        crate::props::on_push(self, st, t, s, v);
    }
}
/// conditions of if-then-else nodes and boolean atoms inside a term
fn conds_of(t: T) -> Vec<T> {
    fn go(t: T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>, d: u32) {
        if d == 0 || !seen.insert(t) {
            return;
        }
        match node(t) {
            Node::Ite(c, a, b) => {
                go(c, out, seen, d - 1);
                if !out.contains(&c) {
                    out.push(c);
                }
                go(a, out, seen, d - 1);
                go(b, out, seen, d - 1);
            }
            _ => {
                for ch in children(t) {
                    go(ch, out, seen, d - 1);
                }
            }
        }
    }
    let mut out = vec![];
    go(t, &mut out, &mut Default::default(), 24);
    if out.is_empty() {
        // boolean atoms
        for a in atoms_of(t).iter() {
            if static_range(*a) == Some((0, 1)) && *a != t {
                out.push(*a);
            }
        }
    }
    out
}
