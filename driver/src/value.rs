//! Abstract values, abstract state and joins.
use crate::facts::Facts;
use crate::term::*;
use rustc_middle::ty::Ty;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Top,
    I(T, IK),
    Fl(T),
    Agg(Rc<Vec<V>>),
    En(Rc<En>),
    P(Rc<Ptr>),
    Seq(Rc<Seq>),
    It(Rc<It>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct En {
    /// variant index
    pub d: T,
    pub vars: Vec<(u32, Rc<Vec<V>>)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Base {
    Loc(u32, u32),
    Heap(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pj {
    F(u32),
    D(u32),
    Ix(T),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ptr {
    pub base: Base,
    pub path: Vec<Pj>,
    pub sl: Option<(T, T)>,
    pub mt: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Items {
    Known(Rc<Vec<V>>),
    Content(C, IK),
    Summ(V),
    Top,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Seq {
    pub len: T,
    pub items: Items,
    pub cap: Option<i128>,
    /// the last element pushed, when the exact sequence is no longer known
    pub last: Option<V>,
}
/// iterator over elements [off, off+len) of a sequence
#[derive(Clone, Debug, PartialEq)]
pub struct It {
    pub kind: ItKind,
    pub off: T,
    pub len: T,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ItKind {
    /// by reference, over the sequence stored at the place
    Ref(Ptr),
    /// by value
    Own(Seq),
    /// chunk iterator: chunk size, exact?
    Chunks(Ptr, T, bool),
    /// windows
    Windows(Ptr, T),
    /// characters of a string: at most `len` more items
    Chars,
    /// any other iterator with at most `len` items
    Opaque,
}

pub fn unit() -> V {
    V::Agg(Rc::new(vec![]))
}
pub fn agg(v: Vec<V>) -> V {
    V::Agg(Rc::new(v))
}
pub fn en(var: u32, f: Vec<V>) -> V {
    V::En(Rc::new(En { d: cst(var as i128), vars: vec![(var, Rc::new(f))] }))
}
pub fn none() -> V {
    en(0, vec![])
}
pub fn some(v: V) -> V {
    en(1, vec![v])
}
pub fn ok(v: V) -> V {
    en(0, vec![v])
}
pub fn err(v: V) -> V {
    en(1, vec![v])
}
pub fn vbool(t: T) -> V {
    V::I(t, BOOL)
}
pub fn vus(t: T) -> V {
    V::I(t, USIZE)
}
pub fn str_seq(s: &[u8]) -> Seq {
    Seq { len: cst(s.len() as i128), items: Items::Content(mkc(CN::Bytes(s.into())), U8), cap: None, last: None }
}
pub fn read_content(c: C, idx: T, k: IK) -> T {
    if let (CN::Bytes(b), Some(i)) = (cnode(c), as_cst(idx)) {
        if i >= 0 && (i as usize) < b.len() {
            return cst(b[i as usize] as i128);
        }
    }
    if let CN::Bytes(b) = cnode(c) {
        // a small table of constants
        if !b.is_empty() && b.len() <= 16 {
            return mktab(idx, b.iter().enumerate().map(|(i, x)| (i as i128, cst(*x as i128))).collect(), cst(b[0] as i128));
        }
    }
    if let CN::App(f, cs, ts) = cnode(c) {
        if &*f == "sub" {
            return read_content(cs[0], add(ts[0], idx), k);
        }
        if &*f == "ite" && as_cst(idx).is_some() && cs.iter().all(|c| matches!(cnode(*c), CN::Bytes(_))) {
            return ite(ts[0], read_content(cs[0], idx, k), read_content(cs[1], idx, k));
        }
    }
    mk(Node::Read { c, idx, lo: k.lo(), hi: k.hi() })
}

/// what a branch established about the switched value
#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    In(Vec<i128>),
    NotIn(Vec<i128>),
}
impl PV {
    /// as a boolean term over the switched value
    pub fn cond(&self, t: T) -> Option<T> {
        match self {
            PV::In(v) if v.len() <= 32 => Some(mktab(t, v.iter().map(|x| (*x, cst(1))).collect(), cst(0))),
            PV::NotIn(v) if v.len() <= 32 => Some(mktab(t, v.iter().map(|x| (*x, cst(0))).collect(), cst(1))),
            _ => None,
        }
    }
    fn disjoint(&self, o: &PV) -> bool {
        match (self, o) {
            (PV::In(a), PV::In(b)) => !a.iter().any(|x| b.contains(x)),
            (PV::In(a), PV::NotIn(l)) | (PV::NotIn(l), PV::In(a)) => a.iter().all(|x| l.contains(x)),
            _ => false,
        }
    }
    /// None: nothing is known any more
    pub fn union(&self, o: &PV) -> Option<PV> {
        match (self, o) {
            (PV::In(a), PV::In(b)) => {
                let mut v = a.clone();
                v.extend(b);
                Some(PV::In(v))
            }
            (PV::In(a), PV::NotIn(l)) | (PV::NotIn(l), PV::In(a)) => {
                let v: Vec<i128> = l.iter().copied().filter(|x| !a.contains(x)).collect();
                if v.is_empty() { None } else { Some(PV::NotIn(v)) }
            }
            _ => None,
        }
    }
}
/// how the two sides of a join are told apart
#[derive(Clone, Debug)]
pub enum Gate {
    Cond(T),
    Sw(T, PV, PV),
}
impl Gate {
    /// a condition that holds on the first side only
    pub fn cond(&self) -> T {
        match self {
            Gate::Cond(c) => *c,
            Gate::Sw(t, p, q) => match (p, q) {
                (PV::In(a), PV::In(b)) if a.len() > b.len() => mktab(*t, b.iter().map(|x| (*x, cst(0))).collect(), cst(1)),
                (PV::In(a), _) => mktab(*t, a.iter().map(|x| (*x, cst(1))).collect(), cst(0)),
                (_, PV::In(b)) => mktab(*t, b.iter().map(|x| (*x, cst(0))).collect(), cst(1)),
                _ => unreachable!(),
            },
        }
    }
    pub fn sel(&self, x: T, y: T) -> T {
        match self {
            Gate::Cond(g) => gate_ite(*g, x, y),
            Gate::Sw(t, p, q) => {
                let mut es: Vec<(i128, T)> = vec![];
                let mut def = None;
                for (pv, v) in [(p, x), (q, y)] {
                    match pv {
                        PV::In(a) => es.extend(a.iter().map(|k| (*k, at(v, *t, *k)))),
                        PV::NotIn(_) => def = Some(v),
                    }
                }
                let def = def.unwrap_or_else(|| most(&es));
                mktab(*t, es, def)
            }
        }
    }
}

pub type Pre = (Rc<Vec<T>>, Rc<Vec<T>>);
#[derive(Debug)]
pub struct PathNode {
    pub t: T,
    pub val: PV,
    pub parent: Option<Rc<PathNode>>,
    pub depth: u32,
    pub id: u64,
    /// inequalities and disequalities known before the branch was taken
    pub pre: Pre,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Rc<Vec<V>>>,
    pub heap: Rc<BTreeMap<u32, (Ty<'tcx>, V)>>,
    pub facts: Facts,
    pub path: Option<Rc<PathNode>>,
    pub ghost: Rc<BTreeMap<String, V>>,
}

thread_local! {
    static PID: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
impl<'tcx> State<'tcx> {
    pub fn push_path(&mut self, t: T, val: Result<i128, Vec<i128>>) {
        // branch on a complemented boolean: record the boolean itself
        self.push_pv(t, match val {
            Ok(v) => PV::In(vec![v]),
            Err(l) => PV::NotIn(l),
        })
    }
    pub fn push_pv(&mut self, t: T, val: PV) {
        let id = PID.with(|p| {
            p.set(p.get() + 1);
            p.get()
        });
        let depth = self.path.as_ref().map_or(0, |p| p.depth + 1);
        self.path = Some(Rc::new(PathNode { t, val, parent: self.path.take(), depth, id, pre: Pre::default() }));
    }
    pub fn set_pre(&mut self, pre: Pre) {
        if let Some(n) = self.path.as_mut().and_then(Rc::get_mut) {
            n.pre = pre;
        }
    }
}

/// depth of the deepest common path node and the two nodes just below it
pub fn diverge(a: &Option<Rc<PathNode>>, b: &Option<Rc<PathNode>>) -> (Option<Rc<PathNode>>, Option<Rc<PathNode>>, Option<Rc<PathNode>>) {
    let (mut x, mut y) = (a.clone(), b.clone());
    let (mut lx, mut ly) = (None, None);
    loop {
        match (&x, &y) {
            (Some(p), Some(q)) => {
                if Rc::ptr_eq(p, q) {
                    return (x, lx, ly);
                }
                if p.depth > q.depth {
                    let n = p.parent.clone();
                    lx = x;
                    x = n;
                } else if q.depth > p.depth {
                    let n = q.parent.clone();
                    ly = y;
                    y = n;
                } else {
                    let (n, m) = (p.parent.clone(), q.parent.clone());
                    lx = x;
                    ly = y;
                    x = n;
                    y = m;
                }
            }
            (Some(p), None) => {
                let n = p.parent.clone();
                lx = x;
                x = n;
            }
            (None, Some(q)) => {
                let n = q.parent.clone();
                ly = y;
                y = n;
            }
            (None, None) => return (None, lx, ly),
        }
    }
}
/// how the two path nodes just below the point of divergence exclude each other
pub fn gate(x: &Option<Rc<PathNode>>, y: &Option<Rc<PathNode>>) -> Option<Gate> {
    let (x, y) = (x.as_ref()?, y.as_ref()?);
    if x.t != y.t || !x.val.disjoint(&y.val) {
        return None;
    }
    if is_bool(x.t) {
        let c = match (&x.val, &y.val) {
            (PV::In(v), _) if v.len() == 1 => eq0(addc(x.t, -v[0])),
            (_, PV::In(w)) if w.len() == 1 => not(eq0(addc(x.t, -w[0]))),
            _ => return None,
        };
        return Some(Gate::Cond(c));
    }
    Some(Gate::Sw(x.t, x.val.clone(), y.val.clone()))
}

pub struct Joiner<'a, 'tcx> {
    pub a: &'a State<'tcx>,
    pub b: &'a State<'tcx>,
    pub gate: Option<Gate>,
    pub memo: HashMap<(T, T), T>,
    /// bases for affine sharing: (ta, delta, phi)
    pub bases: Vec<(T, T, T)>,
    /// resulting (joined term, in a, in b, kind)
    pub changed: Vec<(T, T, T, IK)>,
    pub new_heap: Vec<(u32, Ty<'tcx>, V)>,
    pub next_heap: &'a std::cell::Cell<u32>,
    pub name: &'a str,
    pub lost: Vec<String>,
    pub ch: &'a BTreeMap<u32, (Ty<'tcx>, V)>,
    pub pty: &'a dyn Fn(&State<'tcx>, &Ptr) -> Option<Ty<'tcx>>,
}

impl<'a, 'tcx> Joiner<'a, 'tcx> {
    pub fn int(&mut self, x: T, y: T, k: IK) -> T {
        if x == y {
            return x;
        }
        let (sx, sy) = (self.a.facts.simp(x), self.b.facts.simp(y));
        if sx == sy {
            return sx;
        }
        if let Some(&r) = self.memo.get(&(sx, sy)) {
            return r;
        }
        let r = if self.a.facts.simp(y) == sx {
            y
        } else if self.b.facts.simp(x) == sy {
            x
        } else if let Some(g) = &self.gate {
            g.sel(sx, sy)
        } else {
            self.phi(sx, sy, k)
        };
        self.memo.insert((sx, sy), r);
        self.changed.push((r, sx, sy, k));
        r
    }
    fn phi(&mut self, x: T, y: T, k: IK) -> T {
        let d = sub(y, x);
        for (bx, bd, bp) in &self.bases {
            if let Some(m) = ratio(d, *bd) {
                // x + m*(phi - bx)
                return lincomb(x, 1, sub(*bp, *bx), m);
            }
        }
        let (l1, h1) = self.a.facts.range(x);
        let (l2, h2) = self.b.facts.range(y);
        // at a loop head the first two values say nothing about later ones
        let p = if self.name == "i" { fresh(self.name, k.lo(), k.hi()) } else { fresh(self.name, k.lo().max(l1.min(l2)), k.hi().min(h1.max(h2))) };
        self.bases.push((x, d, p));
        p
    }
    /// collect integer differences first so that the smallest delta becomes the base
    pub fn collect_pairs(&self, x: &V, y: &V, out: &mut Vec<(T, T, IK)>, depth: u32) {
        if depth == 0 {
            return;
        }
        match (x, y) {
            (V::I(p, k), V::I(q, _)) if p != q => out.push((*p, *q, *k)),
            (V::Agg(p), V::Agg(q)) if !Rc::ptr_eq(p, q) && p.len() == q.len() => {
                for (m, n) in p.iter().zip(q.iter()) {
                    self.collect_pairs(m, n, out, depth - 1);
                }
            }
            (V::En(p), V::En(q)) if !Rc::ptr_eq(p, q) => {
                for (v, f) in &p.vars {
                    if let Some((_, g)) = q.vars.iter().find(|z| z.0 == *v) {
                        for (m, n) in f.iter().zip(g.iter()) {
                            self.collect_pairs(m, n, out, depth - 1);
                        }
                    }
                }
            }
            (V::Seq(p), V::Seq(q)) if !Rc::ptr_eq(p, q) => {
                if p.len != q.len {
                    out.push((p.len, q.len, USIZE));
                }
                if let (Items::Known(m), Items::Known(n)) = (&p.items, &q.items) {
                    if m.len() == n.len() && m.len() <= 64 {
                        for (a, b) in m.iter().zip(n.iter()) {
                            self.collect_pairs(a, b, out, depth - 1);
                        }
                    }
                }
            }
            (V::P(p), V::P(q)) if p.base == q.base => {
                if let (Some(m), Some(n)) = (p.sl, q.sl) {
                    if m.0 != n.0 {
                        out.push((m.0, n.0, USIZE));
                    }
                    if m.1 != n.1 {
                        out.push((m.1, n.1, USIZE));
                    }
                }
            }
            (V::It(p), V::It(q)) => {
                if p.off != q.off {
                    out.push((p.off, q.off, USIZE));
                }
                if p.len != q.len {
                    out.push((p.len, q.len, USIZE));
                }
            }
            _ => {}
        }
    }
    pub fn flo(&mut self, x: T, y: T) -> T {
        if x == y {
            return x;
        }
        if let Some(&r) = self.memo.get(&(x, y)) {
            return r;
        }
        let r = if let Some(gt) = self.gate.clone() {
            // exact integers stay exact
            match (node(x), node(y)) {
                (Node::FInt(p), Node::FInt(q)) => mk(Node::FInt(gt.sel(p, q))),
                _ => {
                    let g = gt.cond();
                    let (g, x, y) = {
                        let (k, v) = lin(g);
                        if k == 1 && v.len() == 1 && v[0].1 == -1 { (v[0].0, y, x) } else { (g, x, y) }
                    };
                    mk(Node::FOp("ite".into(), Rc::from([g, x, y])))
                }
            }
        } else {
            match (node(x), node(y)) {
                (Node::FInt(p), Node::FInt(q)) => {
                    let t = self.int(p, q, IK { bits: 64, signed: true });
                    mk(Node::FInt(t))
                }
                _ => fresh_float(),
            }
        };
        self.memo.insert((x, y), r);
        r
    }
    pub fn v(&mut self, x: &V, y: &V) -> V {
        match (x, y) {
            (V::I(p, k), V::I(q, k2)) => {
                if p == q {
                    return x.clone();
                }
                V::I(self.int(*p, *q, if k == k2 { *k } else { I128K }), *k)
            }
            (V::Fl(p), V::Fl(q)) => V::Fl(self.flo(*p, *q)),
            (V::Agg(p), V::Agg(q)) => {
                if Rc::ptr_eq(p, q) {
                    return x.clone();
                }
                if p.len() != q.len() {
                    return V::Top;
                }
                let r: Vec<V> = p.iter().zip(q.iter()).map(|(a, b)| self.v(a, b)).collect();
                V::Agg(Rc::new(r))
            }
            (V::En(p), V::En(q)) => {
                if Rc::ptr_eq(p, q) {
                    return x.clone();
                }
                let d = self.int(p.d, q.d, I128K);
                let (ra, rb) = (self.a.facts.range(p.d), self.b.facts.range(q.d));
                let can = |r: (i128, i128), v: u32, f: &Facts, d: T| (v as i128) >= r.0 && (v as i128) <= r.1 && !(f.ne.contains(&addc(d, -(v as i128)))) && f.dom.get(&d).is_none_or(|w| w.contains(&(v as i128)));
                let mut vars: Vec<(u32, Rc<Vec<V>>)> = vec![];
                for (v, f) in &p.vars {
                    if !can(ra, *v, &self.a.facts, p.d) {
                        continue;
                    }
                    if can(rb, *v, &self.b.facts, q.d) {
                        if let Some((_, g)) = q.vars.iter().find(|z| z.0 == *v) {
                            if Rc::ptr_eq(f, g) {
                                vars.push((*v, f.clone()));
                            } else {
                                let r: Vec<V> = f.iter().zip(g.iter()).map(|(a, b)| self.v(a, b)).collect();
                                vars.push((*v, Rc::new(r)));
                            }
                        }
                        // payload unknown on the other side: leave it unknown
                    } else {
                        vars.push((*v, f.clone()));
                    }
                }
                for (v, g) in &q.vars {
                    if can(rb, *v, &self.b.facts, q.d) && !can(ra, *v, &self.a.facts, p.d) {
                        vars.push((*v, g.clone()));
                    }
                }
                vars.sort_by_key(|z| z.0);
                V::En(Rc::new(En { d, vars }))
            }
            (V::P(p), V::P(q)) => {
                if p == q {
                    return x.clone();
                }
                if p.base == q.base && p.path.len() == q.path.len() && p.sl.is_some() == q.sl.is_some() {
                    let mut okp = true;
                    let mut path = vec![];
                    for (m, n) in p.path.iter().zip(q.path.iter()) {
                        match (m, n) {
                            (Pj::Ix(s), Pj::Ix(t)) => path.push(Pj::Ix(self.int(*s, *t, USIZE))),
                            (m, n) if m == n => path.push(*m),
                            _ => {
                                okp = false;
                                break;
                            }
                        }
                    }
                    if okp {
                        let sl = match (p.sl, q.sl) {
                            (Some(m), Some(n)) => Some((self.int(m.0, n.0, USIZE), self.int(m.1, n.1, USIZE))),
                            _ => None,
                        };
                        return V::P(Rc::new(Ptr { base: p.base, path, sl, mt: p.mt || q.mt }));
                    }
                }
                if p.mt || q.mt {
                    self.lost.push("mutable pointers to different places merged".into());
                    return V::Top;
                }
                // an empty slice is a slice of anything
                if let (Some(s1), Some(s2)) = (p.sl, q.sl) {
                    if as_cst(self.b.facts.simp(s2.1)) == Some(0) {
                        let len = self.int(s1.1, s2.1, USIZE);
                        return V::P(Rc::new(Ptr { base: p.base, path: p.path.clone(), sl: Some((s1.0, len)), mt: false }));
                    }
                    if as_cst(self.a.facts.simp(s1.1)) == Some(0) {
                        let len = self.int(s1.1, s2.1, USIZE);
                        return V::P(Rc::new(Ptr { base: q.base, path: q.path.clone(), sl: Some((s2.0, len)), mt: false }));
                    }
                }
                // shared references to different immutable objects: join the pointees
                if let (Some(v1), Some(v2)) = (peek(self.a, self.ch, p), peek(self.b, self.ch, q)) {
                    let Some(ty) = (self.pty)(self.a, p).or_else(|| (self.pty)(self.b, q)) else { return V::Top };
                    if let (Some(s1), Some(s2), V::Seq(q1), V::Seq(q2)) = (p.sl, q.sl, &v1, &v2) {
                        let (c1, c2) = (sub_seq(q1, s1, &self.a.facts), sub_seq(q2, s2, &self.b.facts));
                        let jv = self.v(&V::Seq(Rc::new(c1)), &V::Seq(Rc::new(c2)));
                        let V::Seq(js) = &jv else { return V::Top };
                        let len = js.len;
                        let id = self.next_heap.get();
                        self.next_heap.set(id + 1);
                        self.new_heap.push((id, ty, jv));
                        return V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: Some((cst(0), len)), mt: false }));
                    }
                    if p.sl.is_none() && q.sl.is_none() {
                        let jv = self.v(&v1, &v2);
                        let id = self.next_heap.get();
                        self.next_heap.set(id + 1);
                        self.new_heap.push((id, ty, jv));
                        return V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: None, mt: false }));
                    }
                }
                V::Top
            }
            (V::Seq(p), V::Seq(q)) => {
                if Rc::ptr_eq(p, q) || p == q {
                    return x.clone();
                }
                let len = self.int(p.len, q.len, USIZE);
                let last = match (p.last_v(), q.last_v()) {
                    (Some(a), Some(b)) => Some(self.v(&a, &b)),
                    // one side empty: `last` describes the element if there is one
                    (Some(a), None) if as_cst(q.len) == Some(0) => Some(a),
                    (None, Some(b)) if as_cst(p.len) == Some(0) => Some(b),
                    _ => None,
                };
                let items = match (&p.items, &q.items) {
                    (Items::Content(c, k), Items::Content(d, _)) if c == d => Items::Content(*c, *k),
                    (Items::Known(m), Items::Known(n)) if m.len() == n.len() => {
                        if Rc::ptr_eq(m, n) {
                            Items::Known(m.clone())
                        } else {
                            Items::Known(Rc::new(m.iter().zip(n.iter()).map(|(a, b)| self.v(a, b)).collect()))
                        }
                    }
                    (Items::Top, _) if as_cst(p.len) != Some(0) => Items::Top,
                    (_, Items::Top) if as_cst(q.len) != Some(0) => Items::Top,
                    (Items::Content(_, k), Items::Content(..)) if self.gate.is_some() || self.name != "i" => match self.gate.as_ref().map(|g| g.cond()) {
                        Some(g) => {
                            let (Items::Content(c, _), Items::Content(d, _)) = (&p.items, &q.items) else { unreachable!() };
                            Items::Content(mkc(CN::App("ite".into(), Rc::from([*c, *d]), Rc::from([g]))), *k)
                        }
                        None => Items::Content(fresh_content("phi"), *k),
                    },
                    _ => {
                        let s1 = summary(p, &self.a.facts);
                        let s2 = summary(q, &self.b.facts);
                        match (s1, s2) {
                            (Some(a), Some(b)) => Items::Summ(self.summ_join(&a, &b)),
                            (Some(a), None) if as_cst(q.len) == Some(0) => Items::Summ(a),
                            (None, Some(b)) if as_cst(p.len) == Some(0) => Items::Summ(b),
                            (None, None) if as_cst(p.len) == Some(0) && as_cst(q.len) == Some(0) => p.items.clone(),
                            _ => Items::Top,
                        }
                    }
                };
                V::Seq(Rc::new(Seq { len, items, cap: p.cap, last }))
            }
            (V::It(p), V::It(q)) => {
                if p == q {
                    return x.clone();
                }
                let off = self.int(p.off, q.off, USIZE);
                let len = self.int(p.len, q.len, USIZE);
                let kind = if p.kind == q.kind {
                    p.kind.clone()
                } else {
                    match (&p.kind, &q.kind) {
                        (ItKind::Own(a), ItKind::Own(b)) => match self.v(&V::Seq(Rc::new(a.clone())), &V::Seq(Rc::new(b.clone()))) {
                            V::Seq(s) => ItKind::Own((*s).clone()),
                            _ => return V::Top,
                        },
                        (ItKind::Chars, ItKind::Chars) => ItKind::Chars,
                        (ItKind::Ref(a), ItKind::Ref(b)) => match self.v(&V::P(Rc::new(a.clone())), &V::P(Rc::new(b.clone()))) {
                            V::P(s) => ItKind::Ref((*s).clone()),
                            _ => return V::Top,
                        },
                        _ => return V::Top,
                    }
                };
                V::It(Rc::new(It { kind, off, len }))
            }
            _ => V::Top,
        }
    }
    /// join of two summaries: integers become ranges
    fn summ_join(&mut self, x: &V, y: &V) -> V {
        summ_join(x, y)
    }
}

/// the value at a place, without materialising anything
pub fn peek<'tcx>(st: &State<'tcx>, ch: &BTreeMap<u32, (Ty<'tcx>, V)>, p: &Ptr) -> Option<V> {
    let mut v = match p.base {
        Base::Loc(f, l) => st.frames.get(f as usize)?.get(l as usize)?.clone(),
        Base::Heap(h) => st.heap.get(&h).or_else(|| ch.get(&h))?.1.clone(),
    };
    let mut i = 0;
    while i < p.path.len() {
        v = match (&p.path[i], &v) {
            (Pj::F(n), V::Agg(f)) => f.get(*n as usize)?.clone(),
            (Pj::D(_), V::Agg(_)) => v.clone(),
            (Pj::D(k), V::En(e)) => {
                let Some(Pj::F(n)) = p.path.get(i + 1) else { return None };
                i += 1;
                e.vars.iter().find(|x| x.0 == *k)?.1.get(*n as usize)?.clone()
            }
            (Pj::Ix(t), V::Seq(s)) => match (&s.items, as_cst(st.facts.simp(*t))) {
                (Items::Known(f), Some(n)) => f.get(n as usize)?.clone(),
                _ => return None,
            },
            _ => return None,
        };
        i += 1;
    }
    if matches!(v, V::Top) {
        return None;
    }
    Some(v)
}
/// elements [off, off+len) of a sequence
fn sub_seq(s: &Seq, sl: (T, T), f: &Facts) -> Seq {
    let (off, len) = (f.simp(sl.0), f.simp(sl.1));
    if as_cst(off) == Some(0) && len == f.simp(s.len) {
        return Seq { cap: None, ..s.clone() };
    }
    let items = match &s.items {
        Items::Known(v) => match (as_cst(off), as_cst(len)) {
            (Some(o), Some(n)) if o >= 0 && n >= 0 && (o + n) as usize <= v.len() => Items::Known(Rc::new(v[o as usize..(o + n) as usize].to_vec())),
            _ => summary(s, f).map_or(Items::Top, Items::Summ),
        },
        Items::Content(_, k) if as_cst(off) != Some(0) => Items::Content(fresh_content("mix"), *k),
        x => x.clone(),
    };
    Seq { len, items, cap: None, last: None }
}
pub fn gate_ite(g: T, x: T, y: T) -> T {
    let (cx, vx) = lin(x);
    let (cy, vy) = lin(y);
    if vx.is_empty() && vy.is_empty() {
        return ite(g, x, y);
    }
    if is_bool(g) && !vx.is_empty() && !vy.is_empty() {
        if let Some(t) = crate::bits::ite_bits(g, x, y) {
            return t;
        }
    }
    // common part
    let mut com: Vec<(T, i128)> = vec![];
    for (a, k) in vx.iter() {
        if vy.iter().any(|(b, l)| a == b && k == l) {
            com.push((*a, *k));
        }
    }
    let c = if com.is_empty() && (vx.is_empty() || vy.is_empty()) { 0 } else { cx.min(cy) };
    let common = mklin(c, com);
    let (rx, ry) = (sub(x, common), sub(y, common));
    add(common, ite(g, rx, ry))
}

pub fn fresh_float() -> T {
    let s = fresh("f", 0, i64::MAX as i128);
    mk(Node::FOp("fresh".into(), Rc::from([s])))
}

impl Seq {
    pub fn last_v(&self) -> Option<V> {
        if let Some(l) = &self.last {
            return Some(l.clone());
        }
        match &self.items {
            Items::Known(v) => v.last().cloned(),
            _ => None,
        }
    }
}

/// m with d == m * b
pub fn ratio(d: T, b: T) -> Option<i128> {
    if d == b {
        return Some(1);
    }
    let (cd, vd) = lin(d);
    let (cb, vb) = lin(b);
    if vd.len() != vb.len() {
        return None;
    }
    let m = if let (Some(x), Some(y)) = (vd.first(), vb.first()) {
        if y.1 == 0 || x.1 % y.1 != 0 {
            return None;
        }
        x.1 / y.1
    } else {
        if cb == 0 || cd % cb != 0 {
            return None;
        }
        cd / cb
    };
    if m == 0 || cd != m * cb {
        return None;
    }
    for (x, y) in vd.iter().zip(vb.iter()) {
        if x.0 != y.0 || x.1 != m * y.1 {
            return None;
        }
    }
    Some(m)
}

/// a value describing any element of the sequence (integers widened to ranges)
pub fn summary(s: &Seq, f: &Facts) -> Option<V> {
    match &s.items {
        Items::Known(v) => {
            let mut it = v.iter();
            let mut acc = summarise(it.next()?, f);
            for x in it {
                acc = summ_join(&acc, &summarise(x, f));
            }
            Some(acc)
        }
        Items::Content(_, k) => Some(V::I(fresh_k("e", *k), *k)),
        Items::Summ(v) => Some(v.clone()),
        Items::Top => Some(V::Top),
    }
}
pub fn summarise(v: &V, f: &Facts) -> V {
    match v {
        V::Top => V::Top,
        V::I(t, k) => {
            let (l, h) = f.range(f.simp(*t));
            V::I(fresh("e", l.max(k.lo()), h.min(k.hi())), *k)
        }
        V::Fl(t) => match node(*t) {
            Node::FConst(_) => v.clone(),
            _ => V::Fl(fresh_float()),
        },
        V::Agg(x) => V::Agg(Rc::new(x.iter().map(|y| summarise(y, f)).collect())),
        V::En(e) => {
            let (l, h) = f.range(f.simp(e.d));
            V::En(Rc::new(En { d: fresh("d", l, h), vars: e.vars.iter().filter(|z| (z.0 as i128) >= l && (z.0 as i128) <= h).map(|(v, x)| (*v, Rc::new(x.iter().map(|y| summarise(y, f)).collect::<Vec<_>>()))).collect() }))
        }
        V::P(p) => match (p.base, p.path.is_empty(), p.mt) {
            // pointer to an immutable object as a whole
            (Base::Heap(_), true, false) if p.sl.is_none() || p.sl.map_or(false, |s| as_cst(s.0).is_some() && as_cst(s.1).is_some()) => v.clone(),
            (Base::Heap(_), true, false) => {
                let (o, l) = p.sl.unwrap();
                let g = |t: T| {
                    let (a, b) = f.range(f.simp(t));
                    fresh("e", a.max(0), b.min(i64::MAX as i128))
                };
                let _ = o;
                let q = Ptr { base: p.base, path: vec![], sl: Some((g(o), g(l))), mt: false };
                V::P(Rc::new(q))
            }
            _ => V::Top,
        },
        V::Seq(s) => {
            let (l, h) = f.range(f.simp(s.len));
            let items = match summary(s, f) {
                Some(x) if !matches!(s.items, Items::Content(..)) => Items::Summ(x),
                _ => match &s.items {
                    Items::Content(_, k) => Items::Content(fresh_content("e"), *k),
                    _ => Items::Top,
                },
            };
            V::Seq(Rc::new(Seq { len: fresh("e", l.max(0), h), items, cap: s.cap, last: None }))
        }
        V::It(_) => V::Top,
    }
}
/// join of two summarised values
pub fn summ_join(x: &V, y: &V) -> V {
    match (x, y) {
        (V::I(p, k), V::I(q, _)) => {
            let r = |t: T| static_range(t).unwrap_or((k.lo(), k.hi()));
            let (a, b) = (r(*p), r(*q));
            V::I(fresh("e", a.0.min(b.0), a.1.max(b.1)), *k)
        }
        (V::Fl(p), V::Fl(q)) => {
            if p == q {
                x.clone()
            } else {
                V::Fl(fresh_float())
            }
        }
        (V::Agg(p), V::Agg(q)) if p.len() == q.len() => V::Agg(Rc::new(p.iter().zip(q.iter()).map(|(a, b)| summ_join(a, b)).collect())),
        (V::En(p), V::En(q)) => {
            let r = |t: T| static_range(t).unwrap_or((0, 1000));
            let (a, b) = (r(p.d), r(q.d));
            let mut vars = vec![];
            for (v, f) in &p.vars {
                match q.vars.iter().find(|z| z.0 == *v) {
                    Some((_, g)) => vars.push((*v, Rc::new(f.iter().zip(g.iter()).map(|(a, b)| summ_join(a, b)).collect::<Vec<_>>()))),
                    None if (*v as i128) < b.0 || (*v as i128) > b.1 => vars.push((*v, f.clone())),
                    None => {}
                }
            }
            for (v, g) in &q.vars {
                if !p.vars.iter().any(|z| z.0 == *v) && ((*v as i128) < a.0 || (*v as i128) > a.1) {
                    vars.push((*v, g.clone()));
                }
            }
            vars.sort_by_key(|z| z.0);
            V::En(Rc::new(En { d: fresh("d", a.0.min(b.0), a.1.max(b.1)), vars }))
        }
        (V::P(p), V::P(q)) if p == q => x.clone(),
        (V::P(p), V::P(q)) if p.base == q.base && p.path == q.path && p.sl.is_some() && q.sl.is_some() => {
            let h = |a: T, b: T| {
                let (x, y) = (static_range(a).unwrap_or((0, i64::MAX as i128)), static_range(b).unwrap_or((0, i64::MAX as i128)));
                fresh("e", x.0.min(y.0), x.1.max(y.1))
            };
            let (a, b) = (p.sl.unwrap(), q.sl.unwrap());
            V::P(Rc::new(Ptr { base: p.base, path: p.path.clone(), sl: Some((h(a.0, b.0), h(a.1, b.1))), mt: p.mt || q.mt }))
        }
        (V::Seq(p), V::Seq(q)) => {
            let f = Facts::default();
            let r = |t: T| static_range(t).unwrap_or((0, i64::MAX as i128));
            let (a, b) = (r(p.len), r(q.len));
            let items = match (&p.items, &q.items) {
                (Items::Content(_, k), Items::Content(..)) => Items::Content(fresh_content("e"), *k),
                _ => match (summary(p, &f), summary(q, &f)) {
                    (Some(x), Some(y)) => Items::Summ(summ_join(&x, &y)),
                    (Some(x), None) if b == (0, 0) => Items::Summ(x),
                    (None, Some(y)) if a == (0, 0) => Items::Summ(y),
                    _ => Items::Top,
                },
            };
            V::Seq(Rc::new(Seq { len: fresh("e", a.0.min(b.0), a.1.max(b.1)), items, cap: p.cap, last: None }))
        }
        _ => V::Top,
    }
}
/// instantiate a summary with fresh symbols
pub fn freshen(v: &V) -> V {
    match v {
        V::Top | V::It(_) => V::Top,
        V::I(t, k) => match static_range(*t) {
            Some((l, h)) => V::I(fresh("x", l, h), *k),
            None => V::I(fresh_k("x", *k), *k),
        },
        V::Fl(t) => match node(*t) {
            Node::FConst(_) => v.clone(),
            _ => V::Fl(fresh_float()),
        },
        V::Agg(x) => V::Agg(Rc::new(x.iter().map(freshen).collect())),
        V::En(e) => {
            let (l, h) = static_range(e.d).unwrap_or((0, 255));
            V::En(Rc::new(En { d: fresh("d", l, h), vars: e.vars.iter().map(|(v, x)| (*v, Rc::new(x.iter().map(freshen).collect::<Vec<_>>()))).collect() }))
        }
        V::P(p) => match p.sl {
            Some((o, l)) => {
                let g = |t: T| match static_range(t) {
                    Some((a, b)) => fresh("x", a, b),
                    None => fresh("x", 0, i64::MAX as i128),
                };
                V::P(Rc::new(Ptr { sl: Some((g(o), g(l))), ..(**p).clone() }))
            }
            None => v.clone(),
        },
        V::Seq(s) => {
            let (l, h) = static_range(s.len).unwrap_or((0, i64::MAX as i128));
            let items = match &s.items {
                Items::Content(_, k) => Items::Content(fresh_content("x"), *k),
                Items::Known(x) => Items::Known(Rc::new(x.iter().map(freshen).collect())),
                o => o.clone(),
            };
            V::Seq(Rc::new(Seq { len: fresh("len", l, h), items, cap: s.cap, last: None }))
        }
    }
}

pub fn subst_v(v: &V, s: &HashMap<T, T>, m: &mut HashMap<T, T>) -> V {
    match v {
        V::Top => V::Top,
        V::I(t, k) => V::I(subst(*t, s, m), *k),
        V::Fl(t) => V::Fl(subst(*t, s, m)),
        V::Agg(x) => V::Agg(Rc::new(x.iter().map(|y| subst_v(y, s, m)).collect())),
        V::En(e) => V::En(Rc::new(En { d: subst(e.d, s, m), vars: e.vars.iter().map(|(v, x)| (*v, Rc::new(x.iter().map(|y| subst_v(y, s, m)).collect::<Vec<_>>()))).collect() })),
        V::P(p) => V::P(Rc::new(subst_p(p, s, m))),
        V::Seq(q) => V::Seq(Rc::new(subst_seq(q, s, m))),
        V::It(i) => V::It(Rc::new(It {
            off: subst(i.off, s, m),
            len: subst(i.len, s, m),
            kind: match &i.kind {
                ItKind::Ref(p) => ItKind::Ref(subst_p(p, s, m)),
                ItKind::Own(q) => ItKind::Own(subst_seq(q, s, m)),
                ItKind::Chunks(p, t, e) => ItKind::Chunks(subst_p(p, s, m), subst(*t, s, m), *e),
                ItKind::Windows(p, t) => ItKind::Windows(subst_p(p, s, m), subst(*t, s, m)),
                o => o.clone(),
            },
        })),
    }
}
fn subst_p(p: &Ptr, s: &HashMap<T, T>, m: &mut HashMap<T, T>) -> Ptr {
    Ptr {
        base: p.base,
        path: p
            .path
            .iter()
            .map(|x| match x {
                Pj::Ix(t) => Pj::Ix(subst(*t, s, m)),
                o => *o,
            })
            .collect(),
        sl: p.sl.map(|(a, b)| (subst(a, s, m), subst(b, s, m))),
        mt: p.mt,
    }
}
fn subst_seq(q: &Seq, s: &HashMap<T, T>, m: &mut HashMap<T, T>) -> Seq {
    Seq {
        len: subst(q.len, s, m),
        items: match &q.items {
            Items::Known(v) => Items::Known(Rc::new(v.iter().map(|y| subst_v(y, s, m)).collect())),
            Items::Content(c, k) => Items::Content(subst_c(*c, s, m), *k),
            Items::Summ(v) => Items::Summ(subst_v(v, s, m)),
            Items::Top => Items::Top,
        },
        cap: q.cap,
        last: q.last.as_ref().map(|v| subst_v(v, s, m)),
    }
}
