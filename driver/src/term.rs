//! Hash-consed terms: the value-numbering part of the abstract domain.
//!
//! Every integer, boolean, character or float value of the analysed program is a term over input
//! bytes, lengths and loop/join symbols. Integer terms are kept in a linear normal form over atoms;
//! bit operations are normalised into bit fields of atoms where possible.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;
pub type C = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct IK {
    pub bits: u8,
    pub signed: bool,
}
pub const U8: IK = IK { bits: 8, signed: false };
pub const USIZE: IK = IK { bits: 64, signed: false };
pub const BOOL: IK = IK { bits: 1, signed: false };
pub const I128K: IK = IK { bits: 127, signed: true };
impl IK {
    pub fn lo(self) -> i128 {
        if self.signed { if self.bits >= 127 { i128::MIN / 4 } else { -(1i128 << (self.bits - 1)) } } else { 0 }
    }
    pub fn hi(self) -> i128 {
        if self.signed {
            if self.bits >= 127 { i128::MAX / 4 } else { (1i128 << (self.bits - 1)) - 1 }
        } else if self.bits >= 126 {
            i128::MAX / 4
        } else {
            (1i128 << self.bits) - 1
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Div,
    Rem,
    Mul,
    Min,
    Max,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Lin(i128, Rc<[(T, i128)]>),
    Sym { id: u32, lo: i128, hi: i128 },
    Read { c: C, idx: T, lo: i128, hi: i128 },
    Field { a: T, lo: u8, w: u8 },
    Bin { op: B, a: T, b: T },
    Wrap { a: T, k: IK },
    Eq0(T),
    Ge0(T),
    Ite(T, T, T),
    /// exclusive or of at least two boolean atoms
    Xor(Rc<[T]>),
    /// number with the given bits, least significant first
    Word(Rc<[T]>),
    /// value by cases of `t`: the listed ones (sorted by key), otherwise `def`
    Tab { t: T, es: Rc<[(i128, T)]>, def: T },
    App { f: Rc<str>, args: Rc<[T]>, lo: i128, hi: i128 },
    /// left fold of `step` over elements [off, off+len) of content `c`
    Fold { step: T, init: T, c: C, off: T, len: T, lo: i128, hi: i128 },
    FConst(u64),
    FInt(T),
    FOp(Rc<str>, Rc<[T]>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum CN {
    Sym(u32),
    Bytes(Rc<[u8]>),
    /// content determined by other terms/contents (pure function application)
    App(Rc<str>, Rc<[C]>, Rc<[T]>),
}

pub struct Tm {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub cnodes: Vec<CN>,
    cmap: HashMap<CN, C>,
    pub names: HashMap<u32, Rc<str>>,
    pub cnames: HashMap<u32, Rc<str>>,
    next_sym: u32,
    next_c: u32,
    atoms_memo: HashMap<T, Rc<[T]>>,
    range_memo: HashMap<T, Option<(i128, i128)>>,
}

thread_local! {
    pub static TM: RefCell<Tm> = RefCell::new(Tm::new());
}

impl Tm {
    fn new() -> Tm {
        Tm {
            nodes: vec![],
            map: HashMap::new(),
            cnodes: vec![],
            cmap: HashMap::new(),
            names: HashMap::new(),
            cnames: HashMap::new(),
            next_sym: 0,
            next_c: 0,
            atoms_memo: HashMap::new(),
            range_memo: HashMap::new(),
        }
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.map.insert(n, t);
        t
    }
}

pub fn mk(n: Node) -> T {
    TM.with(|m| m.borrow_mut().intern(n))
}
pub fn node(t: T) -> Node {
    TM.with(|m| m.borrow().nodes[t as usize].clone())
}
pub fn mkc(n: CN) -> C {
    TM.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(&c) = m.cmap.get(&n) {
            return c;
        }
        let c = m.cnodes.len() as C;
        m.cnodes.push(n.clone());
        m.cmap.insert(n, c);
        c
    })
}
pub fn cnode(c: C) -> CN {
    TM.with(|m| m.borrow().cnodes[c as usize].clone())
}
pub fn fresh_content(name: &str) -> C {
    let id = TM.with(|m| {
        let mut m = m.borrow_mut();
        m.next_c += 1;
        let id = m.next_c;
        m.cnames.insert(id, name.into());
        id
    });
    mkc(CN::Sym(id))
}
pub fn fresh(name: &str, lo: i128, hi: i128) -> T {
    if lo == hi {
        return cst(lo);
    }
    let id = TM.with(|m| {
        let mut m = m.borrow_mut();
        m.next_sym += 1;
        let id = m.next_sym;
        m.names.insert(id, name.into());
        id
    });
    mk(Node::Sym { id, lo, hi })
}
pub fn fresh_k(name: &str, k: IK) -> T {
    fresh(name, k.lo(), k.hi())
}
pub fn cst(c: i128) -> T {
    mk(Node::Lin(c, Rc::from([])))
}
pub fn as_cst(t: T) -> Option<i128> {
    TM.with(|m| match &m.borrow().nodes[t as usize] {
        Node::Lin(c, v) if v.is_empty() => Some(*c),
        _ => None,
    })
}

/// linear form view
pub fn lin(t: T) -> (i128, Rc<[(T, i128)]>) {
    TM.with(|m| match &m.borrow().nodes[t as usize] {
        Node::Lin(c, v) => (*c, v.clone()),
        _ => (0, Rc::from([(t, 1)])),
    })
}
pub fn is_atom(t: T) -> bool {
    TM.with(|m| !matches!(&m.borrow().nodes[t as usize], Node::Lin(..)))
}
pub fn mklin(c: i128, mut v: Vec<(T, i128)>) -> T {
    v.sort_by_key(|x| x.0);
    let mut out: Vec<(T, i128)> = Vec::with_capacity(v.len());
    for (a, k) in v {
        match out.last_mut() {
            Some(l) if l.0 == a => l.1 += k,
            _ => out.push((a, k)),
        }
    }
    out.retain(|x| x.1 != 0);
    if c == 0 && out.len() == 1 && out[0].1 == 1 {
        return out[0].0;
    }
    mk(Node::Lin(c, out.into()))
}
pub fn add(a: T, b: T) -> T {
    lincomb(a, 1, b, 1)
}
pub fn sub(a: T, b: T) -> T {
    lincomb(a, 1, b, -1)
}
pub fn addc(a: T, k: i128) -> T {
    lincomb(a, 1, cst(1), k)
}
pub fn scale(a: T, k: i128) -> T {
    lincomb(a, k, cst(0), 0)
}
pub fn neg(a: T) -> T {
    scale(a, -1)
}
const BIG: i128 = 1 << 118;
pub fn lincomb(a: T, ka: i128, b: T, kb: i128) -> T {
    let (ca, va) = lin(a);
    let (cb, vb) = lin(b);
    let mulc = |x: i128, k: i128| x.checked_mul(k).filter(|v| v.abs() < BIG);
    let (Some(c1), Some(c2)) = (mulc(ca, ka), mulc(cb, kb)) else {
        return mk(Node::App { f: "huge".into(), args: Rc::from([a, b, cst(ka % (1 << 60)), cst(kb % (1 << 60))]), lo: -BIG, hi: BIG });
    };
    let mut v = Vec::with_capacity(va.len() + vb.len());
    let mut ok = true;
    for (src, k) in [(&va, ka), (&vb, kb)] {
        for &(at, kk) in src.iter() {
            match mulc(kk, k) {
                Some(x) => v.push((at, x)),
                None => ok = false,
            }
        }
    }
    if !ok {
        return mk(Node::App { f: "huge".into(), args: Rc::from([a, b, cst(ka % (1 << 60)), cst(kb % (1 << 60))]), lo: -BIG, hi: BIG });
    }
    mklin(c1 + c2, v)
}

/// children terms of an atom
pub fn children(t: T) -> Vec<T> {
    match node(t) {
        Node::Lin(_, v) => v.iter().map(|x| x.0).collect(),
        Node::Sym { .. } | Node::FConst(_) => vec![],
        Node::Read { c, idx, .. } => {
            let mut v = vec![idx];
            c_terms(c, &mut v);
            v
        }
        Node::Field { a, .. } | Node::Wrap { a, .. } | Node::Eq0(a) | Node::Ge0(a) | Node::FInt(a) => vec![a],
        Node::Bin { a, b, .. } => vec![a, b],
        Node::Ite(c, a, b) => vec![c, a, b],
        Node::Xor(v) | Node::Word(v) => v.to_vec(),
        Node::App { args, .. } => args.to_vec(),
        Node::Tab { t, es, def } => {
            let mut v = vec![t, def];
            v.extend(es.iter().map(|x| x.1));
            v
        }
        Node::Fold { step, init, c, off, len, .. } => {
            let mut v = vec![step, init, off, len];
            c_terms(c, &mut v);
            v
        }
        Node::FOp(_, args) => args.to_vec(),
    }
}
fn c_terms(c: C, out: &mut Vec<T>) {
    if let CN::App(_, cs, ts) = cnode(c) {
        out.extend(ts.iter());
        for x in cs.iter() {
            c_terms(*x, out);
        }
    }
}

/// does `t` mention any of the atoms in `set`?
pub fn mentions(t: T, set: &std::collections::HashSet<T>) -> bool {
    !set.is_empty() && atoms_of(t).iter().any(|x| set.contains(x))
}

/// all atoms (non-linear nodes) reachable from t, t included when it is an atom
pub fn atoms_of(t: T) -> Rc<[T]> {
    if let Some(r) = TM.with(|m| m.borrow().atoms_memo.get(&t).cloned()) {
        return r;
    }
    let mut out: Vec<T> = vec![];
    if is_atom(t) {
        out.push(t);
    }
    for c in children(t) {
        out.extend(atoms_of(c).iter());
    }
    out.sort();
    out.dedup();
    let r: Rc<[T]> = out.into();
    TM.with(|m| m.borrow_mut().atoms_memo.insert(t, r.clone()));
    r
}

pub fn subst(t: T, s: &HashMap<T, T>, memo: &mut HashMap<T, T>) -> T {
    if s.is_empty() {
        return t;
    }
    if let Some(&r) = s.get(&t) {
        return r;
    }
    if let Some(&r) = memo.get(&t) {
        return r;
    }
    if !atoms_of(t).iter().any(|x| s.contains_key(x)) {
        return t;
    }
    let r = match node(t) {
        Node::Lin(c, v) => {
            let mut acc = cst(c);
            for (a, k) in v.iter() {
                let na = subst(*a, s, memo);
                acc = lincomb(acc, 1, na, *k);
            }
            acc
        }
        Node::Sym { .. } | Node::FConst(_) => t,
        Node::Read { c, idx, lo, hi } => {
            let idx = subst(idx, s, memo);
            let c = subst_c(c, s, memo);
            match (cnode(c), as_cst(idx)) {
                (CN::Bytes(b), Some(i)) if i >= 0 && (i as usize) < b.len() => cst(b[i as usize] as i128),
                _ => mk(Node::Read { c, idx, lo, hi }),
            }
        }
        Node::Field { a, lo, w } => {
            let a = subst(a, s, memo);
            crate::bits::field(a, lo, w)
        }
        Node::Bin { op, a, b } => {
            let a = subst(a, s, memo);
            let b = subst(b, s, memo);
            crate::bits::bin(op, a, b)
        }
        Node::Wrap { a, k } => {
            let a = subst(a, s, memo);
            match as_cst(a) {
                Some(x) => cst(wrap_const(x, k)),
                None => mk(Node::Wrap { a, k }),
            }
        }
        Node::Eq0(a) => eq0(subst(a, s, memo)),
        Node::Ge0(a) => ge0(subst(a, s, memo)),
        Node::Ite(c, a, b) => {
            let c = subst(c, s, memo);
            let a = subst(a, s, memo);
            let b = subst(b, s, memo);
            ite(c, a, b)
        }
        Node::Xor(v) => {
            let v: Vec<T> = v.iter().map(|x| subst(*x, s, memo)).collect();
            bxor(&v)
        }
        Node::Word(v) => {
            let v: Vec<T> = v.iter().map(|x| subst(*x, s, memo)).collect();
            crate::bits::word(&v)
        }
        Node::Tab { t: i, es, def } => {
            let ni = subst(i, s, memo);
            if let Some(c) = as_cst(ni) {
                let v = es.iter().find(|x| x.0 == c).map_or(def, |x| x.1);
                subst(v, s, memo)
            } else {
                let es: Vec<(i128, T)> = es.iter().map(|x| (x.0, subst(x.1, s, memo))).collect();
                let def = subst(def, s, memo);
                mktab(ni, es, def)
            }
        }
        Node::App { f, args, lo, hi } => {
            let args: Vec<T> = args.iter().map(|x| subst(*x, s, memo)).collect();
            mk(Node::App { f, args: args.into(), lo, hi })
        }
        Node::Fold { step, init, c, off, len, lo, hi } => {
            let init = subst(init, s, memo);
            let off = subst(off, s, memo);
            let len = subst(len, s, memo);
            let c = subst_c(c, s, memo);
            mkfold(step, init, c, off, len, lo, hi)
        }
        Node::FInt(a) => {
            let a = subst(a, s, memo);
            mk(Node::FInt(a))
        }
        Node::FOp(f, args) => {
            let args: Vec<T> = args.iter().map(|x| subst(*x, s, memo)).collect();
            mk(Node::FOp(f, args.into()))
        }
    };
    memo.insert(t, r);
    r
}
pub fn subst_c(c: C, s: &HashMap<T, T>, memo: &mut HashMap<T, T>) -> C {
    match cnode(c) {
        CN::App(f, cs, ts) => {
            let ncs: Vec<C> = cs.iter().map(|x| subst_c(*x, s, memo)).collect();
            let nts: Vec<T> = ts.iter().map(|x| subst(*x, s, memo)).collect();
            if &*f == "ite" {
                match as_cst(nts[0]) {
                    Some(0) => return ncs[1],
                    Some(_) => return ncs[0],
                    None => {}
                }
            }
            mkc(CN::App(f, ncs.into(), nts.into()))
        }
        _ => c,
    }
}

pub fn wrap_const(x: i128, k: IK) -> i128 {
    if k.bits >= 126 {
        return x;
    }
    let m = 1i128 << k.bits;
    let r = x.rem_euclid(m);
    if k.signed && r >= m / 2 { r - m } else { r }
}
pub fn fold_bin(op: B, a: i128, b: i128) -> Option<i128> {
    Some(match op {
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if !(0..100).contains(&b) {
                return None;
            }
            a.checked_mul(1i128 << b)?
        }
        B::Shr => {
            if !(0..127).contains(&b) {
                return None;
            }
            a >> b
        }
        B::Div => {
            if b == 0 {
                return None;
            }
            a / b
        }
        B::Rem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        B::Mul => a.checked_mul(b)?,
        B::Min => a.min(b),
        B::Max => a.max(b),
    })
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

/// a >= 0 as a boolean term
pub fn ge0(a: T) -> T {
    let (c, v) = lin(a);
    if v.is_empty() {
        return cst((c >= 0) as i128);
    }
    if let Some(r) = tab_map(a, &|x| Some((x >= 0) as i128)) {
        return r;
    }
    // normalise by gcd of the coefficients (integer tightening)
    let g = v.iter().fold(0, |g, x| gcd(g, x.1));
    let a = if g > 1 { mklin(c.div_euclid(g), v.iter().map(|x| (x.0, x.1 / g)).collect()) } else { a };
    // the upper half of a range of a power of two is its top bit
    let (c, v) = lin(a);
    if v.len() == 1 && v[0].1.abs() == 1 {
        let h = if v[0].1 == 1 { -c } else { c + 1 };
        if h > 0 && h & (h - 1) == 0 {
            if let Some((0.., hi)) = static_range(v[0].0) {
                if hi >= h && hi < 2 * h {
                    let b = if h == 1 { v[0].0 } else { crate::bits::field(v[0].0, h.trailing_zeros() as u8, 1) };
                    return if v[0].1 == 1 { b } else { not(b) };
                }
            }
        }
    }
    // canonical polarity: first coefficient positive; otherwise  a>=0 == !(-a-1 >= 0)
    let (_, v) = lin(a);
    if v[0].1 < 0 {
        let n = addc(neg(a), -1);
        return sub(cst(1), mk(Node::Ge0(n)));
    }
    mk(Node::Ge0(a))
}
pub fn eq0(a: T) -> T {
    let (c, v) = lin(a);
    if v.is_empty() {
        return cst((c == 0) as i128);
    }
    if let Some(r) = tab_map(a, &|x| Some((x == 0) as i128)) {
        return r;
    }
    let g = v.iter().fold(0, |g, x| gcd(g, x.1));
    if g > 1 && c % g != 0 {
        return cst(0);
    }
    let s = if v[0].1 < 0 { -1 } else { 1 };
    // boolean atom compared with constant
    if v.len() == 1 {
        let want = -c / v[0].1;
        if let Some((lo, hi)) = static_range(v[0].0) {
            if want < lo || want > hi {
                return cst(0);
            }
            if lo == 0 && hi == 1 {
                return if want == 1 { v[0].0 } else { sub(cst(1), v[0].0) };
            }
        }
    }
    let a = mklin(c / g * s, v.iter().map(|x| (x.0, x.1 / g * s)).collect());
    mk(Node::Eq0(a))
}
pub fn static_range(t: T) -> Option<(i128, i128)> {
    if let Some(r) = TM.with(|m| m.borrow().range_memo.get(&t).cloned()) {
        return r;
    }
    let r = static_range0(t);
    TM.with(|m| m.borrow_mut().range_memo.insert(t, r));
    r
}
fn static_range0(t: T) -> Option<(i128, i128)> {
    match node(t) {
        Node::Sym { lo, hi, .. } | Node::Read { lo, hi, .. } | Node::App { lo, hi, .. } | Node::Fold { lo, hi, .. } => Some((lo, hi)),
        Node::Field { w, .. } => Some((0, (1i128 << w) - 1)),
        Node::Eq0(_) | Node::Ge0(_) | Node::Xor(_) => Some((0, 1)),
        Node::Word(v) => Some((0, (1i128 << v.len()) - 1)),
        Node::Tab { es, def, .. } => {
            let (mut lo, mut hi) = static_range(def)?;
            for (_, x) in es.iter() {
                let (l, h) = static_range(*x)?;
                lo = lo.min(l);
                hi = hi.max(h);
            }
            Some((lo, hi))
        }
        Node::Wrap { k, .. } => Some((k.lo(), k.hi())),
        Node::Lin(c, v) if v.is_empty() => Some((c, c)),
        Node::Lin(c, v) => {
            let (mut lo, mut hi) = (c, c);
            for (a, k) in v.iter() {
                let (l, h) = static_range(*a)?;
                let (x, y) = (l.checked_mul(*k)?, h.checked_mul(*k)?);
                lo = lo.checked_add(x.min(y))?;
                hi = hi.checked_add(x.max(y))?;
            }
            Some((lo, hi))
        }
        Node::Ite(_, a, b) => {
            let (a, b) = (static_range(a)?, static_range(b)?);
            Some((a.0.min(b.0), a.1.max(b.1)))
        }
        Node::Bin { op: B::And, a, b } => {
            let (a, b) = (static_range(a)?, static_range(b)?);
            if a.0 >= 0 && b.0 >= 0 { Some((0, a.1.min(b.1))) } else if a.0 >= 0 { Some((0, a.1)) } else if b.0 >= 0 { Some((0, b.1)) } else { None }
        }
        Node::Bin { op: B::Or | B::Xor, a, b } => {
            let (a, b) = (static_range(a)?, static_range(b)?);
            if a.0 >= 0 && b.0 >= 0 {
                let m = a.1.max(b.1);
                Some((0, next_mask(m)))
            } else {
                None
            }
        }
        Node::Bin { op: B::Rem, a, b } => {
            let a = static_range(a)?;
            let b = as_cst(b)?;
            if a.0 >= 0 && b > 0 { Some((0, (b - 1).min(a.1))) } else { None }
        }
        Node::Bin { op: B::Div, a, b } => {
            let a = static_range(a)?;
            let b = as_cst(b)?;
            if b > 0 { Some((a.0 / b, a.1 / b)) } else { None }
        }
        Node::Bin { op: B::Shr, a, b } => {
            let a = static_range(a)?;
            let b = as_cst(b)?;
            if (0..127).contains(&b) { Some((a.0 >> b, a.1 >> b)) } else { None }
        }
        _ => None,
    }
}
pub fn next_mask(m: i128) -> i128 {
    if m <= 0 {
        return 0;
    }
    let b = 128 - m.leading_zeros();
    if b >= 126 { i128::MAX } else { (1i128 << b) - 1 }
}
pub fn ite(c: T, a: T, b: T) -> T {
    if a == b {
        return a;
    }
    if let Some(x) = as_cst(c) {
        return if x != 0 { a } else { b };
    }
    // canonical polarity: condition not of the form 1 - x
    let (k, v) = lin(c);
    if k == 1 && v.len() == 1 && v[0].1 == -1 {
        return ite(v[0].0, b, a);
    }
    // boolean-valued
    if let (Some(x), Some(y)) = (as_cst(a), as_cst(b)) {
        // linear in the condition
        return lincomb(scale(c, x - y), 1, cst(y), 1);
    }
    if is_bool(a) && is_bool(b) {
        if add(a, b) == cst(1) {
            return bxor(&[c, b]);
        }
        match (as_cst(a), as_cst(b)) {
            (Some(0), _) => return crate::bits::and(not(c), b),
            (Some(_), _) => return crate::bits::or(c, b),
            (_, Some(0)) => return crate::bits::and(c, a),
            (_, Some(_)) => return crate::bits::or(not(c), a),
            _ => {}
        }
    } else if is_bool(c) && as_cst(a).is_none() && as_cst(b).is_none() {
        if let Some(t) = crate::bits::ite_bits(c, a, b) {
            return t;
        }
    }
    mk(Node::Ite(c, a, b))
}
/// value by cases of `t`
/// a fold; unrolled when the number of elements is known and small
pub fn mkfold(step: T, init: T, c: C, off: T, len: T, lo: i128, hi: i128) -> T {
    if let Some(n) = as_cst(len) {
        if n <= 0 {
            return init;
        }
        if n <= 16 {
            let mut t = init;
            for i in 0..n {
                t = fold_step(step, t, c, addc(off, i));
            }
            return t;
        }
    }
    mk(Node::Fold { step, init, c, off, len, lo, hi })
}
/// one step of a fold
pub fn fold_step(step: T, acc: T, c: C, idx: T) -> T {
    let mut s = HashMap::new();
    for a in atoms_of(step).iter() {
        match sym_name(*a).as_deref() {
            Some("ACC") => {
                s.insert(*a, acc);
            }
            Some("ELEM") => {
                s.insert(*a, crate::value::read_content(c, idx, U8));
            }
            _ => {}
        }
    }
    subst(step, &s, &mut HashMap::new())
}
fn sym_name(t: T) -> Option<Rc<str>> {
    match node(t) {
        Node::Sym { id, .. } => TM.with(|m| m.borrow().names.get(&id).cloned()),
        _ => None,
    }
}
pub fn mktab(t: T, mut es: Vec<(i128, T)>, def: T) -> T {
    if let Some(c) = as_cst(t) {
        return es.iter().find(|x| x.0 == c).map_or(def, |x| x.1);
    }
    let (c, v) = lin(t);
    let mut t = t;
    if v.len() == 1 && v[0].1.abs() == 1 && !(c == 0 && v[0].1 == 1) {
        // c + k*a = key  <=>  a = k*(key - c)
        for e in es.iter_mut() {
            e.0 = v[0].1 * (e.0 - c);
        }
        t = v[0].0;
    }
    if let Some((l, h)) = static_range(t) {
        es.retain(|e| e.0 >= l && e.0 <= h);
    }
    // cases inside the default
    let mut def = def;
    while let Some((e2, d2)) = as_tab(def, t) {
        for e in e2 {
            if !es.iter().any(|x| x.0 == e.0) {
                es.push(e);
            }
        }
        def = d2;
    }
    es.sort_by_key(|x| x.0);
    es.dedup_by_key(|x| x.0);
    if let Some((l, h)) = static_range(t) {
        // complete table: the default is the most frequent value
        if !es.is_empty() && h - l + 1 == es.len() as i128 {
            def = most(&es);
        }
    }
    es.retain(|e| e.1 != def);
    // part common to all cases
    if es.len() > 1 {
        let mut com: Vec<(T, i128)> = lin(def).1.to_vec();
        for (_, x) in &es {
            if com.is_empty() {
                break;
            }
            let v = lin(*x).1;
            com.retain(|a| v.contains(a));
        }
        if !com.is_empty() {
            let common = mklin(0, com);
            let es = es.into_iter().map(|(k, x)| (k, sub(x, common))).collect();
            return add(common, mktab(t, es, sub(def, common)));
        }
    }
    match es.len() {
        0 => def,
        1 => crate::value::gate_ite(eq0(addc(t, -es[0].0)), es[0].1, def),
        _ => mk(Node::Tab { t, es: es.into(), def }),
    }
}
/// view of a term as cases of `t`
pub fn as_tab(x: T, t: T) -> Option<(Vec<(i128, T)>, T)> {
    let key = |c: T| -> Option<i128> {
        let Node::Eq0(a) = node(c) else { return None };
        let (k, l) = lin(a);
        if l.len() == 1 && l[0].0 == t && k % l[0].1 == 0 { Some(-k / l[0].1) } else { None }
    };
    match node(x) {
        Node::Tab { t: u, es, def } if u == t => Some((es.to_vec(), def)),
        Node::Ite(c, a, b) => Some((vec![(key(c)?, a)], b)),
        Node::Eq0(_) => Some((vec![(key(x)?, cst(1))], cst(0))),
        Node::Lin(..) => {
            let (_, l) = lin(x);
            let (a, k, (e, d)) = l.iter().find_map(|(a, k)| if matches!(node(*a), Node::Lin(..)) { None } else { as_tab(*a, t).map(|y| (*a, *k, y)) })?;
            let rest = lincomb(x, 1, a, -k);
            let g = |y: T| lincomb(rest, 1, y, k);
            Some((e.into_iter().map(|z| (z.0, g(z.1))).collect(), g(d)))
        }
        _ => None,
    }
}
pub fn most(es: &[(i128, T)]) -> T {
    let mut cnt: HashMap<T, usize> = HashMap::new();
    for e in es {
        *cnt.entry(e.1).or_insert(0) += 1;
    }
    let m = cnt.values().max().copied().unwrap_or(0);
    es.iter().map(|e| e.1).find(|x| cnt[x] == m).unwrap()
}
/// table over base, base+1, ...
pub fn mkselect(t: T, vals: &[T], base: i128) -> T {
    let es: Vec<(i128, T)> = vals.iter().enumerate().map(|(i, v)| (base + i as i128, *v)).collect();
    let def = most(&es);
    mktab(t, es, def)
}
/// `x` where `t` is known to be `v` (only conditions on `t` are resolved)
pub fn at(x: T, t: T, v: i128) -> T {
    if !atoms_of(x).contains(&t) {
        return x;
    }
    match node(x) {
        Node::Lin(c, l) => {
            let mut acc = cst(c);
            for (a, k) in l.iter() {
                acc = lincomb(acc, 1, if *a == t { t } else { at(*a, t, v) }, *k);
            }
            acc
        }
        Node::Tab { t: u, es, def } if u == t => at(es.iter().find(|e| e.0 == v).map_or(def, |e| e.1), t, v),
        Node::Eq0(a) => {
            let (c, l) = lin(a);
            if l.len() == 1 && l[0].0 == t { cst((c + l[0].1 * v == 0) as i128) } else { x }
        }
        Node::Ge0(a) => {
            let (c, l) = lin(a);
            if l.len() == 1 && l[0].0 == t { cst((c + l[0].1 * v >= 0) as i128) } else { x }
        }
        Node::Ite(c, a, b) => match as_cst(at(c, t, v)) {
            Some(0) => at(b, t, v),
            Some(_) => at(a, t, v),
            None => x,
        },
        _ => x,
    }
}
/// apply a function to the entries when all of them are constants
pub fn tab_map(x: T, f: &dyn Fn(i128) -> Option<i128>) -> Option<T> {
    let (c, l) = lin(x);
    if l.len() != 1 {
        return None;
    }
    let k = l[0].1;
    let Node::Tab { t, es, def } = node(l[0].0) else { return None };
    let g = |y: T| -> Option<T> { Some(cst(f(as_cst(y)?.checked_mul(k)?.checked_add(c)?)?)) };
    let d = g(def)?;
    let mut n = vec![];
    for (v, y) in es.iter() {
        n.push((*v, g(*y)?));
    }
    Some(mktab(t, n, d))
}
pub fn is_bool(t: T) -> bool {
    matches!(static_range(t), Some((l, h)) if l >= 0 && h <= 1)
}
/// exclusive or of boolean terms in normal form
pub fn bxor(xs: &[T]) -> T {
    let mut flip = false;
    let mut v: Vec<T> = vec![];
    for &x in xs {
        let mut x = x;
        if let Some(c) = as_cst(x) {
            flip ^= c != 0;
            continue;
        }
        let (k, l) = lin(x);
        if k == 1 && l.len() == 1 && l[0].1 == -1 {
            flip = !flip;
            x = l[0].0;
        }
        match node(x) {
            Node::Xor(w) => v.extend(w.iter()),
            _ => v.push(x),
        }
    }
    v.sort();
    let mut out: Vec<T> = vec![];
    for x in v {
        if out.last() == Some(&x) {
            out.pop();
        } else {
            out.push(x);
        }
    }
    let r = match out.len() {
        0 => cst(0),
        1 => out[0],
        _ => mk(Node::Xor(out.into())),
    };
    if flip { not(r) } else { r }
}
pub fn not(b: T) -> T {
    sub(cst(1), b)
}

pub fn show(t: T) -> String {
    let d = std::env::var("VDEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(6);
    show_d(t, d)
}
pub fn show_d(t: T, d: u32) -> String {
    if d == 0 {
        return "…".into();
    }
    match node(t) {
        Node::Lin(c, v) => {
            let mut s = String::new();
            for (a, k) in v.iter() {
                let x = show_d(*a, d - 1);
                if s.is_empty() {
                    if *k == 1 {
                        s += &x
                    } else if *k == -1 {
                        s += &format!("-{x}")
                    } else {
                        s += &format!("{k}*{x}")
                    }
                } else if *k == 1 {
                    s += &format!(" + {x}")
                } else if *k == -1 {
                    s += &format!(" - {x}")
                } else if *k < 0 {
                    s += &format!(" - {}*{x}", -k)
                } else {
                    s += &format!(" + {k}*{x}")
                }
            }
            if s.is_empty() {
                return format!("{c}");
            }
            if c != 0 {
                s += &format!(" {} {}", if c < 0 { "-" } else { "+" }, c.abs());
            }
            if v.len() > 1 || c != 0 { format!("({s})") } else { s }
        }
        Node::Sym { id, .. } => {
            let n = TM.with(|m| m.borrow().names.get(&id).cloned().unwrap_or_else(|| "s".into()));
            format!("{n}#{id}")
        }
        Node::Read { c, idx, .. } => format!("{}[{}]", show_c(c), show_d(idx, d - 1)),
        Node::Field { a, lo, w } => format!("{}<{}..{}>", show_d(a, d - 1), lo, lo + w),
        Node::Bin { op, a, b } => format!("{:?}({}, {})", op, show_d(a, d - 1), show_d(b, d - 1)),
        Node::Wrap { a, k } => format!("wrap{}{}({})", if k.signed { "i" } else { "u" }, k.bits, show_d(a, d - 1)),
        Node::Eq0(a) => format!("[{} == 0]", show_d(a, d - 1)),
        Node::Ge0(a) => format!("[{} >= 0]", show_d(a, d - 1)),
        Node::Ite(c, a, b) => format!("({} ? {} : {})", show_d(c, d - 1), show_d(a, d - 1), show_d(b, d - 1)),
        Node::Word(v) => format!("word({})", v.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(", ")),
        Node::Tab { t, es, def } => format!("tab({}; {}{}; {})", show_d(t, d - 1), es.iter().take(6).map(|x| format!("{}:{}", x.0, show_d(x.1, d - 1))).collect::<Vec<_>>().join(" "), if es.len() > 6 { format!(" ..{}", es.len()) } else { String::new() }, show_d(def, d - 1)),
        Node::Xor(v) => format!("xor({})", v.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(", ")),
        Node::App { f, args, .. } => format!("{}({})", f, args.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(", ")),
        Node::Fold { step, init, c, off, len, .. } => format!("fold[{}]({}, {}[{}; {}])", show_d(step, d - 1), show_d(init, d - 1), show_c(c), show_d(off, d - 1), show_d(len, d - 1)),
        Node::FConst(b) => format!("{}f", f64::from_bits(b)),
        Node::FInt(a) => format!("float({})", show_d(a, d - 1)),
        Node::FOp(f, args) => format!("{}({})", f, args.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(", ")),
    }
}
pub fn show_c(c: C) -> String {
    match cnode(c) {
        CN::Sym(id) => TM.with(|m| m.borrow().cnames.get(&id).map(|n| n.to_string())).unwrap_or_else(|| format!("seq{id}")),
        CN::Bytes(b) => format!("{:?}", String::from_utf8_lossy(&b)),
        CN::App(f, cs, ts) => format!("{}({}; {})", f, cs.iter().map(|x| show_c(*x)).collect::<Vec<_>>().join(","), ts.iter().map(|x| show_d(*x, 3)).collect::<Vec<_>>().join(",")),
    }
}
