//! What is known about terms at a program point: ranges, linear inequalities, equalities.
use crate::bits;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Facts {
    pub rng: Rc<BTreeMap<T, (i128, i128)>>,
    pub ineq: Rc<Vec<T>>,
    /// inequalities as they were before an equality simplified them
    pub was: Rc<Vec<T>>,
    pub ne: Rc<Vec<T>>,
    /// solved equalities atom := term (used as rewrite rules)
    pub eqs: Rc<HashMap<T, T>>,
    pub dead: bool,
    /// the values an atom can take, when they are few and not an interval
    pub dom: Rc<BTreeMap<T, Rc<[i128]>>>,
    /// at least one of the two conditions holds
    pub clauses: Rc<Vec<(T, T)>>,
    /// ranges computed since the last change: term -> (depth, range)
    pub memo: Memo,
    /// rewritten forms computed since the last change
    pub smemo: Rc<std::cell::RefCell<HashMap<T, T>>>,
}
thread_local! {
    /// inside a hypothetical case or a rewriting step: no further case splits
    static NEST: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
struct Nest;
impl Nest {
    fn new() -> Nest {
        NEST.with(|n| n.set(n.get() + 1));
        Nest
    }
}
impl Drop for Nest {
    fn drop(&mut self) {
        NEST.with(|n| n.set(n.get() - 1));
    }
}
pub type Memo = Rc<std::cell::RefCell<HashMap<T, (u32, (i128, i128))>>>;

const INF: i128 = 1 << 120;
const MAX_INEQ: usize = 120;

fn sat(x: i128) -> i128 {
    x.clamp(-INF, INF)
}
fn smul(a: i128, b: i128) -> i128 {
    sat(a.saturating_mul(b))
}
fn sadd(a: i128, b: i128) -> i128 {
    sat(a.saturating_add(b))
}

/// the values a conditional term can take, whatever the conditions
fn leaves(t: T) -> Option<Vec<T>> {
    fn go(t: T, seen: &mut HashSet<T>, out: &mut Vec<T>) -> bool {
        if !seen.insert(t) {
            return true;
        }
        if seen.len() > 400 {
            return false;
        }
        match node(t) {
            Node::Ite(_, a, b) => go(a, seen, out) && go(b, seen, out),
            Node::Tab { es, def, .. } => es.iter().all(|e| go(e.1, seen, out)) && go(def, seen, out),
            _ => {
                // a sum with one conditional part
                let (_, v) = lin(t);
                for (a, k) in v.iter() {
                    if *a != t && matches!(node(*a), Node::Ite(..) | Node::Tab { .. }) {
                        let rest = lincomb(t, 1, *a, -*k);
                        let mut o2 = vec![];
                        if !go(*a, &mut HashSet::new(), &mut o2) {
                            return false;
                        }
                        for l in o2 {
                            out.push(lincomb(rest, 1, l, *k));
                        }
                        return out.len() <= 24;
                    }
                }
                out.push(t);
                out.len() <= 24
            }
        }
    }
    if !matches!(node(t), Node::Ite(..) | Node::Tab { .. }) {
        return None;
    }
    let mut out = vec![];
    if go(t, &mut HashSet::new(), &mut out) { Some(out) } else { None }
}

/// drop the least useful fact: the oldest about a table, else the oldest
fn evict(q: &mut Vec<T>) {
    let i = q.iter().position(|f| lin(*f).1.iter().any(|x| matches!(node(x.0), Node::Tab { .. }))).unwrap_or(0);
    q.remove(i);
}
/// assume inside a case split
fn hyp(f: &mut Facts, c: T, v: bool) -> bool {
    let _n = Nest::new();
    f.assume(c, v)
}

impl Facts {
    /// t >= 0, by cases on the conditionals in t
    pub fn entails_cases(&self, t: T, d: u32) -> bool {
        if self.dead || self.entails(t) {
            return true;
        }
        if d == 0 {
            return false;
        }
        let t = self.simp(t);
        let (_, v) = lin(t);
        for (a, k) in v.iter() {
            if let Node::Ite(c, x, y) = node(*a) {
                let rest = lincomb(t, 1, *a, -*k);
                return [(true, x), (false, y)].into_iter().all(|(b, l)| {
                    let mut f = self.clone();
                    if !hyp(&mut f, c, b) || f.dead {
                        return true;
                    }
                    f.entails_cases(lincomb(rest, 1, l, *k), d - 1)
                });
            }
        }
        for (a, k) in v.iter() {
            if let Node::Tab { es, def, .. } = node(*a) {
                let rest = lincomb(t, 1, *a, -*k);
                return es.iter().map(|e| e.1).chain([def]).collect::<HashSet<T>>().into_iter().all(|l| self.entails_cases(lincomb(rest, 1, l, *k), d - 1));
            }
        }
        false
    }
    /// facts known to hold, restored after a join
    pub fn keep(&mut self, pre: &[T]) {
        let add: Vec<T> = {
            let have: HashSet<T> = self.ineq.iter().copied().collect();
            pre.iter().map(|t| self.simp(*t)).filter(|t| !have.contains(t) && lin(*t).1.len() > 1 && self.range(*t).0 < 0).collect()
        };
        if add.is_empty() {
            return;
        }
        let q = Rc::make_mut(&mut self.ineq);
        for t in add {
            q.push(t);
        }
        while q.len() > MAX_INEQ {
            evict(q);
        }
        self.touch();
    }
    pub fn keep_ne(&mut self, pre: &[T]) {
        let add: Vec<T> = pre.iter().map(|t| self.simp(*t)).filter(|t| as_cst(*t).is_none() && !self.ne.contains(t)).collect();
        if add.is_empty() {
            return;
        }
        let q = Rc::make_mut(&mut self.ne);
        q.extend(add);
        while q.len() > 300 {
            q.remove(0);
        }
        self.touch();
    }
    /// rewrite with known equalities and singleton ranges
    pub fn simp(&self, t: T) -> T {
        if as_cst(t).is_some() {
            return t;
        }
        if self.eqs.is_empty() {
            return t;
        }
        if let Some(r) = self.smemo.borrow().get(&t) {
            return *r;
        }
        let r = self.simp0(t);
        self.smemo.borrow_mut().insert(t, r);
        r
    }
    fn simp0(&self, t: T) -> T {
        let mut cur = t;
        for _ in 0..6 {
            let mut memo = HashMap::new();
            let n = subst(cur, &self.eqs, &mut memo);
            if n == cur {
                break;
            }
            cur = n;
        }
        self.simp_ite(cur)
    }
    /// the values a table can still take: (key or None for the default, value)
    fn tab_live(&self, i: T, es: &[(i128, T)], def: T) -> Vec<(Option<i128>, T)> {
        let (l, h) = self.range(i);
        let mut out: Vec<(Option<i128>, T)> = vec![];
        if let Some(d) = self.dom.get(&i) {
            let mut other = false;
            for x in d.iter().filter(|x| **x >= l && **x <= h) {
                match es.iter().find(|e| e.0 == *x) {
                    Some(e) => out.push((Some(*x), e.1)),
                    None => other = true,
                }
            }
            if other {
                out.push((None, def));
            }
            return out;
        }
        let nes: HashSet<i128> = self.ne.iter().filter_map(|x| { let (c, v) = lin(*x); if v.len() == 1 && v[0].0 == i && v[0].1.abs() == 1 { Some(-c * v[0].1) } else { None } }).collect();
        let mut inside = 0;
        for (k, v) in es {
            if *k >= l && *k <= h && !nes.contains(k) {
                out.push((Some(*k), *v));
                inside += 1;
            }
        }
        // is some value outside the listed keys left?
        let excl = nes.iter().filter(|k| **k >= l && **k <= h).count() as i128;
        if h - l + 1 > inside + excl {
            out.push((None, def));
        }
        out
    }
    fn simp_ite(&self, t: T) -> T {
        match node(t) {
            Node::Tab { t: i, es, def } => {
                let lv = self.tab_live(i, &es, def);
                match lv.first() {
                    Some(f) if lv.iter().all(|x| x.1 == f.1) => self.simp_ite(f.1),
                    _ => t,
                }
            }
            Node::Ite(c, a, b) => match self.bool_val(c) {
                Some(true) => self.simp_ite(a),
                Some(false) => self.simp_ite(b),
                None => t,
            },
            Node::Xor(v) => {
                let mut w = vec![];
                let mut ch = false;
                for x in v.iter() {
                    match self.bool_val(*x) {
                        Some(b) => {
                            w.push(cst(b as i128));
                            ch = true;
                        }
                        None => w.push(*x),
                    }
                }
                if ch { bxor(&w) } else { t }
            }
            Node::Word(v) => {
                let w: Vec<T> = v.iter().map(|x| self.simp_ite(*x)).collect();
                if w[..] == v[..] { t } else { bits::word(&w) }
            }
            Node::Lin(c, v) if v.iter().any(|x| matches!(node(x.0), Node::Ite(..) | Node::Xor(_) | Node::Word(_) | Node::Tab { .. })) => {
                let mut acc = cst(c);
                for (a, k) in v.iter() {
                    let na = if matches!(node(*a), Node::Ite(..) | Node::Xor(_) | Node::Word(_) | Node::Tab { .. }) { self.simp_ite(*a) } else { *a };
                    acc = lincomb(acc, 1, na, *k);
                }
                acc
            }
            _ => t,
        }
    }
    pub fn bool_val(&self, c: T) -> Option<bool> {
        let (lo, hi) = self.range(c);
        if lo >= 1 {
            Some(true)
        } else if hi <= 0 {
            Some(false)
        } else {
            None
        }
    }

    /// what is computed from now on must not be seen by states this one was copied from
    fn unshare(&mut self) {
        if Rc::strong_count(&self.memo) > 1 {
            self.memo = Memo::default();
        }
        if Rc::strong_count(&self.smemo) > 1 {
            self.smemo = Default::default();
        }
    }
    pub fn touch(&mut self) {
        if Rc::strong_count(&self.memo) > 1 || !self.memo.borrow().is_empty() {
            self.memo = Memo::default();
        }
        if Rc::strong_count(&self.smemo) > 1 || !self.smemo.borrow().is_empty() {
            self.smemo = Default::default();
        }
    }
    pub fn range(&self, t: T) -> (i128, i128) {
        self.range_d(t, 60)
    }
    fn range_d(&self, t: T, d: u32) -> (i128, i128) {
        if let Some((e, r)) = self.memo.borrow().get(&t) {
            if *e >= d {
                return *r;
            }
        }
        let r = self.range_n(t, d);
        self.memo.borrow_mut().insert(t, (d, r));
        r
    }
    fn range_n(&self, t: T, d: u32) -> (i128, i128) {
        let base = match static_range(t) {
            Some(r) => r,
            None => (-INF, INF),
        };
        if base.0 == base.1 {
            return base;
        }
        let r = if d == 0 {
            base
        } else {
            match node(t) {
                Node::Lin(c, v) => {
                    let (mut lo, mut hi) = (c, c);
                    for (a, k) in v.iter() {
                        let (l, h) = self.range_d(*a, d - 1);
                        let (x, y) = (smul(l, *k), smul(h, *k));
                        lo = sadd(lo, x.min(y));
                        hi = sadd(hi, x.max(y));
                    }
                    (lo, hi)
                }
                Node::Tab { t: i, es, def } => {
                    let mut r: Option<(i128, i128)> = None;
                    for (_, v) in self.tab_live(i, &es, def) {
                        let x = match as_cst(v) {
                            Some(c) => (c, c),
                            None => self.range_d(v, d - 1),
                        };
                        r = Some(r.map_or(x, |y| (y.0.min(x.0), y.1.max(x.1))));
                    }
                    r.unwrap_or(base)
                }
                Node::Ite(c, a, b) => match self.range_d(c, d - 1) {
                    (1, _) => self.range_d(a, d - 1),
                    (_, 0) => self.range_d(b, d - 1),
                    _ => {
                        let (a, b) = (self.range_d(a, d - 1), self.range_d(b, d - 1));
                        (a.0.min(b.0), a.1.max(b.1))
                    }
                },
                Node::Field { a, lo, w } => {
                    let (l, h) = self.range_d(a, d - 1);
                    if l >= 0 && l < INF && h < INF && (h >> lo) - (l >> lo) < (1i128 << w) {
                        let m = (1i128 << w) - 1;
                        let (x, y) = ((l >> lo) & m, (h >> lo) & m);
                        if x <= y && (h >> lo) - (l >> lo) == y - x { (x, y) } else { (0, m) }
                    } else {
                        (0, (1i128 << w) - 1)
                    }
                }
                Node::Bin { op, a, b } => {
                    let (al, ah) = self.range_d(a, d - 1);
                    let (bl, bh) = self.range_d(b, d - 1);
                    match op {
                        B::Min => (al.min(bl), ah.min(bh)),
                        B::Max => (al.max(bl), ah.max(bh)),
                        B::Mul => {
                            let c = [smul(al, bl), smul(al, bh), smul(ah, bl), smul(ah, bh)];
                            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                        }
                        B::Div if bl > 0 => {
                            let c = [al / bl, al / bh, ah / bl, ah / bh];
                            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                        }
                        B::Rem if bl > 0 && al >= 0 => (0, ah.min(bh - 1)),
                        B::Rem if bl > 0 => (-(bh - 1), bh - 1),
                        B::And if al >= 0 && bl >= 0 => (0, ah.min(bh)),
                        B::And if al >= 0 => (0, ah),
                        B::And if bl >= 0 => (0, bh),
                        B::Or if al >= 0 && bl >= 0 => (al.max(bl), next_mask(ah.max(bh))),
                        B::Xor if al >= 0 && bl >= 0 => (0, next_mask(ah.max(bh))),
                        B::Shr if bl >= 0 && bh < 127 => {
                            let c = [al >> bl, al >> bh, ah >> bl, ah >> bh];
                            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                        }
                        B::Shl if bl >= 0 && bh < 100 => {
                            let c = [smul(al, 1 << bl), smul(al, 1 << bh), smul(ah, 1 << bl), smul(ah, 1 << bh)];
                            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                        }
                        _ => base,
                    }
                }
                Node::Wrap { a, k } => {
                    let (l, h) = self.range_d(a, d - 1);
                    if l >= k.lo() && h <= k.hi() { (l, h) } else { (k.lo(), k.hi()) }
                }
                Node::Eq0(a) => {
                    let (l, h) = self.range_d(a, d - 1);
                    if l > 0 || h < 0 {
                        (0, 0)
                    } else if l == 0 && h == 0 {
                        (1, 1)
                    } else if self.ne.iter().any(|x| *x == a || neg(*x) == a) || self.dom_ne(a) {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                Node::Ge0(a) => {
                    let (l, h) = self.range_d(a, d - 1);
                    if l >= 0 {
                        (1, 1)
                    } else if h < 0 {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                }
                _ => base,
            }
        };
        let mut r = (r.0.max(base.0), r.1.min(base.1));
        if let Some(x) = self.rng.get(&t) {
            r = (r.0.max(x.0), r.1.min(x.1));
        }
        r
    }

    fn axioms(&self, atom: T, out: &mut Vec<T>) {
        match node(atom) {
            Node::Bin { op: B::Min, a, b } => {
                out.push(sub(a, atom));
                out.push(sub(b, atom));
            }
            Node::Bin { op: B::Max, a, b } => {
                out.push(sub(atom, a));
                out.push(sub(atom, b));
            }
            Node::Bin { op: B::Div, a, b } => {
                if let Some(k) = as_cst(b) {
                    if k > 0 && self.range(a).0 >= 0 {
                        out.push(sub(a, scale(atom, k)));
                        out.push(addc(sub(scale(atom, k), a), k - 1));
                    }
                } else if self.range(a).0 >= 0 && self.range(b).0 > 0 {
                    out.push(sub(a, atom));
                }
            }
            Node::Bin { op: B::Rem, a, b } => {
                if self.range(a).0 >= 0 && self.range(b).0 > 0 {
                    out.push(sub(a, atom));
                    out.push(addc(sub(b, atom), -1));
                }
            }
            Node::Bin { op: B::And, a, b } => {
                if self.range(a).0 >= 0 {
                    out.push(sub(a, atom));
                }
                if self.range(b).0 >= 0 {
                    out.push(sub(b, atom));
                }
            }
            Node::Bin { op: B::Or, a, b } => {
                if self.range(a).0 >= 0 && self.range(b).0 >= 0 {
                    out.push(sub(atom, a));
                    out.push(sub(atom, b));
                    out.push(sub(add(a, b), atom));
                }
            }
            Node::Field { a, lo, w } => {
                if self.range(a).0 >= 0 {
                    out.push(sub(a, scale(atom, 1i128 << lo)));
                    let (_, h) = self.range(a);
                    if h < (1i128 << (lo + w)) {
                        // top field: a <= 2^lo * f + 2^lo - 1
                        out.push(addc(sub(scale(atom, 1i128 << lo), a), (1i128 << lo) - 1));
                    }
                }
            }
            Node::Ite(_, a, b) => {
                // bounds of the branches relative to one another
                if let Some(d) = as_cst(sub(a, b)) {
                    out.push(addc(sub(atom, a), d.max(0)));
                    out.push(addc(sub(a, atom), (-d).max(0)));
                } else {
                    for (x, y) in [(a, b), (b, a)] {
                        let dr = self.range_d(sub(x, y), 4);
                        if dr.0 >= 0 {
                            // x >= y : atom <= x, atom >= y
                            out.push(sub(x, atom));
                            out.push(sub(atom, y));
                        }
                    }
                }
            }
            Node::App { f, args, .. } if &*f == "le" => {
                // an opaque value bounded above by its argument
                out.push(sub(args[0], atom));
            }
            _ => {}
        }
    }

    /// do the facts entail t >= 0 ?
    pub fn entails(&self, t: T) -> bool {
        self.entails_d(t, if NEST.with(|n| n.get()) > 0 { 0 } else { 3 })
    }
    /// `d` bounds the case splits on conditional atoms
    pub fn entails_d(&self, t: T, d: u32) -> bool {
        if self.dead {
            return true;
        }
        if self.range(t).0 >= 0 {
            return true;
        }
        let t = self.simp(t);
        if self.range(t).0 >= 0 {
            return true;
        }
        let (_, v) = lin(t);
        if v.is_empty() {
            return false;
        }
        // integer tightening of the goal
        let ineq: Vec<T> = self.ineq.iter().map(|f| self.simp(*f)).collect();
        let n = v.len();
        if ineq.iter().any(|f| *f == t || (lin(*f).1.len() <= n + 2 && self.range(sub(t, *f)).0 >= 0)) {
            return true;
        }
        let mut facts: Vec<T> = ineq.clone();
        let mut seen: HashSet<T> = HashSet::new();
        let mut work: Vec<T> = v.iter().map(|x| x.0).collect();
        let mut rounds = 0;
        while let Some(a) = work.pop() {
            if !seen.insert(a) {
                continue;
            }
            rounds += 1;
            if rounds > 40 {
                break;
            }
            let mut ax = vec![];
            self.axioms(a, &mut ax);
            for x in &ax {
                for (b, _) in lin(*x).1.iter() {
                    if !seen.contains(b) {
                        work.push(*b);
                    }
                }
            }
            facts.extend(ax);
        }
        // atoms reachable through relevant facts
        for f in ineq.iter() {
            for (a, _) in lin(*f).1.iter() {
                if seen.insert(*a) {
                    let mut ax = vec![];
                    self.axioms(*a, &mut ax);
                    facts.extend(ax);
                }
            }
        }
        let facts: Vec<(i128, Rc<[(T, i128)]>, T)> = facts.into_iter().map(|f| { let (c, v) = lin(f); (c, v, f) }).collect();
        let mut budget = 600;
        let mut used = vec![];
        if self.prove(t, &facts, 4, &mut budget, &mut used) {
            return true;
        }
        // case split on an undecided conditional
        if d == 0 {
            return false;
        }
        let (_, v) = lin(t);
        // whatever case applies
        for (a, k) in v.iter() {
            if let Some(ls) = leaves(*a) {
                let rest = lincomb(t, 1, *a, -*k);
                if ls.iter().all(|l| self.entails_d(lincomb(rest, 1, *l, *k), d - 1)) {
                    return true;
                }
            }
        }
        for (a, _) in v.iter() {
            if let Node::Ite(c, x, y) = node(*a) {
                if matches!(node(c), Node::Ite(..)) {
                    continue;
                }
                let mut s: HashMap<T, T> = HashMap::new();
                s.insert(*a, x);
                let tx = subst(t, &s, &mut HashMap::new());
                let mut fx = self.clone();
                if hyp(&mut fx, c, true) && !fx.entails_d(tx, d - 1) {
                    return false;
                }
                s.insert(*a, y);
                let ty = subst(t, &s, &mut HashMap::new());
                let mut fy = self.clone();
                return !hyp(&mut fy, c, false) || fy.entails_d(ty, d - 1);
            }
        }
        false
    }
    fn prove(&self, t: T, facts: &[(i128, Rc<[(T, i128)]>, T)], depth: u32, budget: &mut i32, used: &mut Vec<T>) -> bool {
        let lo = self.range(t).0;
        if lo >= 0 {
            return true;
        }
        // integer tightening: g | all coefficients
        let (c, v) = lin(t);
        if v.is_empty() {
            return c >= 0;
        }
        if depth == 0 {
            return false;
        }
        // eliminate an atom whose contribution to the lower bound is "bad"
        for &(a, k) in v.iter() {
            for (_, fv, f) in facts {
                if used.contains(f) {
                    continue;
                }
                let Some(&(_, fk)) = fv.iter().find(|x| x.0 == a) else { continue };
                // need t - lambda f with lambda > 0 cancelling a: k and fk same sign
                if (k > 0) != (fk > 0) {
                    continue;
                }
                *budget -= 1;
                if *budget < 0 {
                    return false;
                }
                // scale: m*t - n*f,  m*k = n*fk
                let g = {
                    let (mut x, mut y) = (k.abs(), fk.abs());
                    while y != 0 {
                        let r = x % y;
                        x = y;
                        y = r;
                    }
                    x
                };
                let (m, n) = (fk.abs() / g, k.abs() / g);
                if m > 1 << 20 || n > 1 << 60 {
                    continue;
                }
                let nt = lincomb(t, m, *f, -n);
                used.push(*f);
                let r = self.prove(nt, facts, depth - 1, budget, used);
                used.pop();
                if r {
                    return true;
                }
            }
        }
        false
    }
    pub fn entails_eq(&self, a: T, b: T) -> bool {
        if self.dead || a == b {
            return true;
        }
        let d = sub(a, b);
        if as_cst(d) == Some(0) {
            return true;
        }
        let d = self.simp(d);
        if as_cst(d) == Some(0) {
            return true;
        }
        let e = bits::expand(d);
        if as_cst(e) == Some(0) {
            return true;
        }
        let e = self.simp(e);
        if as_cst(e) == Some(0) {
            return true;
        }
        let e2 = self.fix_consts(e);
        if as_cst(e2) == Some(0) {
            return true;
        }
        if let (l, h) = self.range(e2) {
            if l > 0 || h < 0 {
                return false;
            }
        }
        self.entails(e2) && self.entails(neg(e2)) || self.eq_by_cases(e2, 3)
    }
    /// equality to zero by splitting on conditional atoms
    fn eq_by_cases(&self, t: T, d: u32) -> bool {
        if d == 0 {
            return false;
        }
        let (_, v) = lin(t);
        for (a, _) in v.iter() {
            if let Node::Ite(c, x, y) = node(*a) {
                for (val, br) in [(true, x), (false, y)] {
                    let mut s: HashMap<T, T> = HashMap::new();
                    s.insert(*a, br);
                    let tx = subst(t, &s, &mut HashMap::new());
                    let mut f = self.clone();
                    if f.assume(c, val) {
                        let tx = f.simp(tx);
                        if as_cst(tx) == Some(0) {
                            continue;
                        }
                        let tx = bits::expand(tx);
                        let tx = f.fix_consts(f.simp(tx));
                        if as_cst(tx) == Some(0) || (f.entails(tx) && f.entails(neg(tx))) || f.eq_by_cases(tx, d - 1) {
                            continue;
                        }
                        return false;
                    }
                }
                return true;
            }
        }
        false
    }
    fn fix_consts(&self, t: T) -> T {
        let (c, v) = lin(t);
        let mut acc = cst(c);
        for (a, k) in v.iter() {
            let (l, h) = self.range(*a);
            acc = if l == h { lincomb(acc, 1, cst(l), *k) } else { lincomb(acc, 1, *a, *k) };
        }
        acc
    }
    pub fn entails_ne(&self, a: T, b: T) -> bool {
        let d = self.simp(sub(a, b));
        let (l, h) = self.range(d);
        if l > 0 || h < 0 {
            return true;
        }
        if self.ne.iter().any(|x| *x == d || neg(*x) == d) || self.dom_ne(d) {
            return true;
        }
        self.entails(addc(d, -1)) || self.entails(addc(neg(d), -1))
    }
    /// is the term nonzero by the known values of its only atom?
    fn dom_ne(&self, t: T) -> bool {
        if self.dom.is_empty() {
            return false;
        }
        let (c, v) = lin(t);
        if v.len() != 1 {
            return false;
        }
        match self.dom.get(&v[0].0) {
            Some(d) => c % v[0].1 != 0 || !d.contains(&(-c / v[0].1)),
            None => false,
        }
    }
    pub fn in_dom(&self, t: T, d: &[i128]) -> bool {
        let t = self.simp(t);
        if let Some(c) = as_cst(t) {
            return d.contains(&c);
        }
        is_atom(t) && self.vals(t, 24).is_some_and(|v| v.iter().all(|x| d.contains(x)))
    }
    /// unit propagation over the recorded disjunctions
    pub fn propagate(&mut self) -> bool {
        if self.dead || self.clauses.is_empty() {
            return !self.dead;
        }
        let cl = self.clauses.clone();
        for (p, q) in cl.iter() {
            match (self.truth0(*p), self.truth0(*q)) {
                (Some(true), _) | (_, Some(true)) => {}
                (Some(false), _) => {
                    self.assume(*q, true);
                }
                (_, Some(false)) => {
                    self.assume(*p, true);
                }
                _ => {}
            }
            if self.dead {
                return false;
            }
        }
        true
    }
    /// cheap truth test: ranges, rewriting and recorded disequalities only
    pub fn truth0(&self, c: T) -> Option<bool> {
        if let Some(b) = self.bool_val(c) {
            return Some(b);
        }
        let c = self.simp(c);
        if let Some(b) = self.bool_val(c) {
            return Some(b);
        }
        let (k, v) = lin(c);
        if k == 1 && v.len() == 1 && v[0].1 == -1 {
            return self.truth0(v[0].0).map(|b| !b);
        }
        match node(c) {
            Node::Eq0(a) => {
                let (l, h) = self.range(a);
                if l > 0 || h < 0 || self.ne.iter().any(|x| *x == a || neg(*x) == a) || self.dom_ne(a) {
                    return Some(false);
                }
                if l == 0 && h == 0 {
                    return Some(true);
                }
                None
            }
            Node::Ge0(a) => {
                let (l, h) = self.range(a);
                if l >= 0 {
                    Some(true)
                } else if h < 0 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// truth of a boolean term
    pub fn truth(&self, c: T) -> Option<bool> {
        if self.dead {
            return Some(true);
        }
        if let Some(b) = self.bool_val(c) {
            return Some(b);
        }
        let c = self.simp(c);
        if let Some(b) = self.bool_val(c) {
            return Some(b);
        }
        let (k, v) = lin(c);
        if k == 1 && v.len() == 1 && v[0].1 == -1 {
            return self.truth(v[0].0).map(|b| !b);
        }
        match node(c) {
            Node::Eq0(a) => {
                if self.entails_eq(a, cst(0)) {
                    return Some(true);
                }
                if self.entails_ne(a, cst(0)) {
                    return Some(false);
                }
                None
            }
            Node::Ge0(a) => {
                if self.entails(a) {
                    return Some(true);
                }
                if self.entails(addc(neg(a), -1)) {
                    return Some(false);
                }
                None
            }
            Node::Bin { op: B::And, a, b } => match (self.truth(a), self.truth(b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            // floats converted from the same integer
            Node::App { f, args, .. } if &*f == "feq" => match (node(args[0]), node(args[1])) {
                (Node::FOp(p, x), Node::FOp(q, y)) if p == q && p.starts_with("i2f") && self.entails_eq(x[0], y[0]) => Some(true),
                _ => None,
            },
            Node::Ite(x, a, b) => match self.truth(x) {
                Some(true) => self.truth(a),
                Some(false) => self.truth(b),
                None => match (self.truth(a), self.truth(b)) {
                    (Some(p), Some(q)) if p == q => Some(p),
                    _ => None,
                },
            },
            _ => None,
        }
    }

    /// possible values of an atom, if at most `cap`
    pub fn vals(&self, a: T, cap: i128) -> Option<Vec<i128>> {
        let (l, h) = self.range(a);
        if let Some(d) = self.dom.get(&a) {
            return Some(d.iter().copied().filter(|x| *x >= l && *x <= h).collect());
        }
        if h - l >= cap {
            return None;
        }
        Some((l..=h).filter(|v| { let d = addc(a, -*v); let n = neg(d); !self.ne.iter().any(|x| *x == d || *x == n) }).collect())
    }
    /// the atom takes one of the given values
    pub fn set_dom(&mut self, a: T, vs: &[i128]) -> bool {
        if self.dead {
            return false;
        }
        if let Some(c) = as_cst(a) {
            if !vs.contains(&c) {
                self.dead = true;
            }
            return !self.dead;
        }
        if !is_atom(a) {
            let (c, v) = lin(a);
            if v.len() == 1 && v[0].1.abs() == 1 {
                let w: Vec<i128> = vs.iter().map(|x| v[0].1 * (x - c)).collect();
                return self.set_dom(v[0].0, &w);
            }
            return true;
        }
        let (l, h) = self.range(a);
        let mut w: Vec<i128> = vs.iter().copied().filter(|v| *v >= l && *v <= h).filter(|v| { let d = addc(a, -*v); let n = neg(d); !self.ne.iter().any(|x| *x == d || *x == n) }).collect();
        if let Some(d) = self.dom.get(&a) {
            w.retain(|x| d.contains(x));
        }
        w.sort();
        w.dedup();
        if w.is_empty() {
            self.dead = true;
            return false;
        }
        let (x, y) = (w[0], w[w.len() - 1]);
        self.touch();
        if y - x + 1 == w.len() as i128 || w.len() > 256 {
            Rc::make_mut(&mut self.dom).remove(&a);
        } else {
            Rc::make_mut(&mut self.dom).insert(a, w.into());
        }
        self.set_rng(a, x, y)
    }
    fn set_rng(&mut self, a: T, lo: i128, hi: i128) -> bool {
        let (l, h) = self.range(a);
        let (nl, nh) = (l.max(lo), h.min(hi));
        if nl > nh {
            self.dead = true;
            return false;
        }
        if (nl, nh) == (l, h) {
            return true;
        }
        let (mut nl, mut nh) = (nl, nh);
        if let Some(d) = self.dom.get(&a) {
            let w: Vec<i128> = d.iter().copied().filter(|x| *x >= nl && *x <= nh).collect();
            if w.is_empty() {
                self.dead = true;
                return false;
            }
            (nl, nh) = (w[0], w[w.len() - 1]);
            if nh - nl + 1 == w.len() as i128 {
                Rc::make_mut(&mut self.dom).remove(&a);
            } else if w.len() < d.len() {
                Rc::make_mut(&mut self.dom).insert(a, w.into());
            }
        }
        self.touch();
        Rc::make_mut(&mut self.rng).insert(a, (nl, nh));
        if nl == nh && as_cst(a).is_none() {
            self.add_eq(a, cst(nl));
        }
        // shave excluded end points
        loop {
            let (l, h) = self.range(a);
            let ex = |v: i128| self.ne.iter().any(|x| *x == addc(a, -v) || neg(*x) == addc(a, -v));
            if l > h {
                self.dead = true;
                return false;
            }
            if ex(l) {
                self.touch();
                Rc::make_mut(&mut self.rng).insert(a, (l + 1, h));
                continue;
            }
            if ex(h) {
                self.touch();
                Rc::make_mut(&mut self.rng).insert(a, (l, h - 1));
                continue;
            }
            break;
        }
        let (l, h) = self.range(a);
        if l > h {
            self.dead = true;
            return false;
        }
        // propagate into the atom's definition
        match node(a) {
            Node::Tab { t: i, es, def } => {
                let lv = self.tab_live(i, &es, def);
                let fits = |f: &Facts, v: T| {
                    let (x, y) = f.range(v);
                    y >= l && x <= h
                };
                let ok: Vec<(Option<i128>, T)> = lv.iter().copied().filter(|x| fits(self, x.1)).collect();
                if ok.is_empty() {
                    self.dead = true;
                    return false;
                }
                if ok.len() < lv.len() {
                    if ok.iter().any(|x| x.0.is_none()) {
                        for (k, _) in lv.iter().filter(|x| !ok.contains(x)) {
                            if let Some(k) = k {
                                self.assume_ne0(addc(i, -*k));
                            }
                        }
                    } else {
                        let ks: Vec<i128> = ok.iter().filter_map(|x| x.0).collect();
                        self.set_dom(i, &ks);
                    }
                }
                if let [(_, v)] = ok[..] {
                    if as_cst(v).is_none() {
                        self.assume_ge0(addc(v, -l));
                        self.assume_ge0(addc(neg(v), h));
                    }
                }
            }
            Node::Bin { op: B::Min, a: x, b: y } => {
                self.assume_ge0(addc(x, -l));
                self.assume_ge0(addc(y, -l));
            }
            Node::Bin { op: B::Max, a: x, b: y } => {
                self.assume_ge0(addc(neg(x), h));
                self.assume_ge0(addc(neg(y), h));
            }
            Node::Field { a: x, lo, w } if self.range(x).0 >= 0 => {
                let (_, xh) = self.range(x);
                if lo == 0 || xh < (1i128 << (lo + w)) {
                    if xh < (1i128 << (lo + w)) {
                        self.assume_ge0(addc(x, -(l << lo)));
                        self.assume_ge0(addc(neg(x), ((h + 1) << lo) - 1));
                    }
                }
            }
            _ => {}
        }
        !self.dead
    }
    fn add_eq(&mut self, a: T, b: T) {
        if self.eqs.contains_key(&a) {
            return;
        }
        self.touch();
        Rc::make_mut(&mut self.eqs).insert(a, b);
        let _n = Nest::new();
        // rewrite the stored facts
        let mut one = HashMap::new();
        one.insert(a, b);
        let mut memo = HashMap::new();
        let mut ch = false;
        let ni: Vec<T> = self
            .ineq
            .iter()
            .map(|f| {
                let n = subst(*f, &one, &mut memo);
                ch |= n != *f;
                n
            })
            .collect();
        if ch {
            let mut out = vec![];
            for (o, f) in self.ineq.clone().iter().zip(ni) {
                if *o != f && self.was.len() < 24 && !self.was.contains(o) {
                    Rc::make_mut(&mut self.was).push(*o);
                }
                let (l, h) = self.range(f);
                if h < 0 {
                    self.dead = true;
                }
                if l < 0 && !out.contains(&f) {
                    out.push(f);
                }
            }
            self.unshare();
            self.ineq = Rc::new(out);
        }
        let mut ch = false;
        let nn: Vec<T> = self
            .ne
            .iter()
            .map(|f| {
                let n = subst(*f, &one, &mut memo);
                ch |= n != *f;
                n
            })
            .collect();
        if ch {
            if nn.iter().any(|x| as_cst(*x) == Some(0)) {
                self.dead = true;
            }
            self.touch();
            self.ne = Rc::new(nn.into_iter().filter(|x| as_cst(*x).is_none()).collect());
        }
        if let Some(d) = self.dom.get(&a).cloned() {
            if as_cst(b).is_none() {
                self.set_dom(b, &d);
            }
        }
        // transfer the range of a to b
        if let Some(&(l, h)) = self.rng.get(&a) {
            if as_cst(b).is_none() {
                self.assume_ge0(addc(b, -l));
                self.assume_ge0(addc(neg(b), h));
            }
        } else if let Some((l, h)) = static_range(a) {
            if as_cst(b).is_none() {
                if l > -INF {
                    self.assume_ge0(addc(b, -l));
                }
                if h < INF {
                    self.assume_ge0(addc(neg(b), h));
                }
            }
        }
        // equalities about atoms that mention a, in their new form
        let ks: Vec<(T, T)> = self.eqs.iter().filter(|(k, v)| **k != a && matches!(node(**k), Node::Read { .. } | Node::Fold { .. } | Node::App { .. }) && as_cst(**v).is_none() && atoms_of(**k).contains(&a)).map(|(k, v)| (*k, *v)).collect();
        for (k, v) in ks {
            let mut memo = HashMap::new();
            let n = subst(k, &one, &mut memo);
            if n != k && !self.dead {
                let u = subst(v, &one, &mut memo);
                self.assume_eq0(sub(n, u));
            }
        }
        // rewrite boolean atoms known (ranges keyed by atoms that mention a)
        let keys: Vec<(T, (i128, i128))> = self.rng.iter().filter(|(k, _)| **k != a && atoms_of(**k).contains(&a)).map(|(k, v)| (*k, *v)).collect();
        for (k, (l, h)) in keys {
            let n = self.simp(k);
            if n != k {
                if let Some(c) = as_cst(n) {
                    if c < l || c > h {
                        self.dead = true;
                    }
                } else {
                    self.assume_ge0(addc(n, -l));
                    self.assume_ge0(addc(neg(n), h));
                }
            }
        }
    }
    pub fn assume_ge0(&mut self, t: T) -> bool {
        if self.dead {
            return false;
        }
        let t = self.simp(t);
        let (c, v) = lin(t);
        if v.is_empty() {
            if c < 0 {
                self.dead = true;
            }
            return !self.dead;
        }
        let (l, h) = self.range(t);
        if l >= 0 {
            return true;
        }
        if h < 0 {
            self.dead = true;
            return false;
        }
        if v.len() == 1 {
            let (a, k) = v[0];
            return if k > 0 {
                // a >= ceil(-c/k)
                self.set_rng(a, -(c.div_euclid(k)), INF)
            } else {
                // a <= floor(c/-k)
                self.set_rng(a, -INF, c.div_euclid(-k))
            };
        }
        if self.ineq.contains(&t) {
            return true;
        }
        // t >= 0 contradicts known facts?
        if self.entails(addc(neg(t), -1)) {
            self.dead = true;
            return false;
        }
        // opposite known: t == 0
        let nt = neg(t);
        if self.ineq.contains(&nt) {
            return self.assume_eq0(t);
        }
        {
            let ne = self.ne.clone();
            if ne.iter().any(|x| *x == t || *x == nt) {
                let t1 = addc(t, -1);
                return self.assume_ge0(t1);
            }
        }
        {
            self.unshare();
            let q = Rc::make_mut(&mut self.ineq);
            q.push(t);
            while q.len() > MAX_INEQ {
                evict(q);
            }
        }
        // interval propagation
        for &(a, k) in v.iter() {
            let rest = lincomb(t, 1, a, -k);
            let (_, rh) = self.range(rest);
            if rh >= INF {
                continue;
            }
            // k*a >= -rest >= -rh
            if k > 0 {
                let b = -(rh.div_euclid(k));
                if b > self.range(a).0 {
                    self.set_rng(a, b, INF);
                }
            } else {
                let b = rh.div_euclid(-k);
                if b < self.range(a).1 {
                    self.set_rng(a, -INF, b);
                }
            }
            if self.dead {
                return false;
            }
        }
        true
    }
    pub fn assume_eq0(&mut self, t: T) -> bool {
        if self.dead {
            return false;
        }
        let t = self.simp(t);
        let (c, v) = lin(t);
        if v.is_empty() {
            if c != 0 {
                self.dead = true;
            }
            return !self.dead;
        }
        let (l, h) = self.range(t);
        if l > 0 || h < 0 || self.ne.iter().any(|x| *x == t || neg(*x) == t) || self.dom_ne(t) {
            self.dead = true;
            return false;
        }
        if v.len() == 1 {
            let (a, k) = v[0];
            if c % k != 0 {
                self.dead = true;
                return false;
            }
            if matches!(node(a), Node::Eq0(_) | Node::Ge0(_)) {
                return self.assume(a, -c / k == 1);
            }
            return self.set_rng(a, -c / k, -c / k);
        }
        // solve for an atom with unit coefficient; prefer the most recently created
        let mut best: Option<(T, i128)> = None;
        for &(a, k) in v.iter().rev() {
            if k.abs() != 1 {
                continue;
            }
            // occurs check
            let rest = lincomb(t, 1, a, -k);
            if atoms_of(rest).contains(&a) {
                continue;
            }
            let pref = |x: T| match node(x) {
                Node::Sym { .. } => 2,
                Node::Read { .. } => 1,
                _ => 0,
            };
            match best {
                Some((b, _)) if pref(b) >= pref(a) => {}
                _ => best = Some((a, k)),
            }
        }
        // also keep both inequalities so that interval propagation happens
        let nt = neg(t);
        for &(a, k) in v.iter() {
            for s in [t, nt] {
                let k = if s == t { k } else { -k };
                let rest = lincomb(s, 1, a, -k);
                let (_, rh) = self.range(rest);
                if rh >= INF {
                    continue;
                }
                if k > 0 {
                    let b = -(rh.div_euclid(k));
                    if b > self.range(a).0 {
                        self.set_rng(a, b, INF);
                    }
                } else {
                    let b = rh.div_euclid(-k);
                    if b < self.range(a).1 {
                        self.set_rng(a, -INF, b);
                    }
                }
                if self.dead {
                    return false;
                }
            }
        }
        if let Some((a, k)) = best {
            let rest = lincomb(t, 1, a, -k);
            let val = scale(rest, -k);
            let val = self.simp(val);
            if !atoms_of(val).contains(&a) && self.simp(a) == a {
                self.add_eq(a, val);
            }
            return !self.dead;
        }
        self.unshare();
        let q = Rc::make_mut(&mut self.ineq);
        for s in [t, nt] {
            if !q.contains(&s) {
                q.push(s);
            }
        }
        true
    }
    pub fn assume_ne0(&mut self, t: T) -> bool {
        if self.dead {
            return false;
        }
        let t = self.simp(t);
        let (c, v) = lin(t);
        if v.is_empty() {
            if c == 0 {
                self.dead = true;
            }
            return !self.dead;
        }
        let (l, h) = self.range(t);
        if l > 0 || h < 0 {
            return true;
        }
        if l == 0 && h == 0 {
            self.dead = true;
            return false;
        }
        if v.len() == 1 && c % v[0].1 == 0 {
            let x = -c / v[0].1;
            if let Some(d) = self.dom.get(&v[0].0) {
                if d.contains(&x) {
                    let w: Vec<i128> = d.iter().copied().filter(|y| *y != x).collect();
                    return self.set_dom(v[0].0, &w);
                }
                return true;
            }
        }
        if !self.ne.contains(&t) {
            self.touch();
            let q = Rc::make_mut(&mut self.ne);
            q.push(t);
            if q.len() > 300 {
                q.remove(0);
            }
        }
        if v.len() == 1 && c % v[0].1 == 0 {
            let (a, k) = v[0];
            let x = -c / k;
            let (l, h) = self.range(a);
            if x == l {
                return self.set_rng(a, l + 1, INF);
            }
            if x == h {
                return self.set_rng(a, -INF, h - 1);
            }
        } else {
            if self.entails(t) {
                return self.assume_ge0(addc(t, -1));
            }
            if self.entails(neg(t)) {
                return self.assume_ge0(addc(neg(t), -1));
            }
        }
        true
    }
    /// assume boolean term c has value v; false if contradictory
    pub fn assume(&mut self, c: T, v: bool) -> bool {
        if self.dead {
            return false;
        }
        let c0 = c;
        let c = self.simp(c);
        if let Some(b) = self.bool_val(c) {
            if b != v {
                self.dead = true;
            }
            return !self.dead;
        }
        let (k, lv) = lin(c);
        if k == 1 && lv.len() == 1 && lv[0].1 == -1 {
            return self.assume(lv[0].0, !v);
        }
        match node(c) {
            Node::Eq0(a) => {
                if v {
                    self.assume_eq0(a);
                } else {
                    self.assume_ne0(a);
                }
            }
            Node::Ge0(a) => {
                if v {
                    self.assume_ge0(a);
                } else {
                    self.assume_ge0(addc(neg(a), -1));
                }
            }
            Node::Bin { op: B::And, a, b } => {
                if v {
                    self.assume(a, true);
                    self.assume(b, true);
                } else if self.truth(a) == Some(true) {
                    self.assume(b, false);
                } else if self.truth(b) == Some(true) {
                    self.assume(a, false);
                }
            }
            Node::Ite(x, a, b) => {
                // ite with one constant branch incompatible with v
                let bad = |t: T| self.truth(t) == Some(!v);
                if bad(a) {
                    self.assume(x, false);
                    self.assume(b, v);
                } else if bad(b) {
                    self.assume(x, true);
                    self.assume(a, v);
                }
            }
            _ => {}
        }
        if self.dead {
            return false;
        }
        if is_atom(c) {
            let b = v as i128;
            self.set_rng(c, b, b);
        }
        let _ = c0;
        !self.dead
    }

    /// facts that hold in both
    pub fn join(a: &Facts, b: &Facts) -> Facts {
        if a.dead {
            return b.clone();
        }
        if b.dead {
            return a.clone();
        }
        let mut out = Facts::default();
        if Rc::ptr_eq(&a.eqs, &b.eqs) {
            out.eqs = a.eqs.clone();
        } else {
            let mut m = HashMap::new();
            for (k, v) in a.eqs.iter() {
                if b.eqs.get(k) == Some(v) {
                    m.insert(*k, *v);
                }
            }
            // equalities only on one side but provable on the other
            let mut cand = vec![];
            for (x, y) in [(a, b), (b, a)] {
                for (k, v) in x.eqs.iter() {
                    if !m.contains_key(k) {
                        cand.push((*k, *v, y));
                    }
                }
            }
            cand.sort_by_key(|c| (c.0, c.1));
            let mut n = 0;
            for (k, v, y) in cand {
                if m.contains_key(&k) {
                    continue;
                }
                if as_cst(v).is_some() {
                    // singleton range; handled by the range join
                    let (l, h) = y.range(k);
                    if l == h && as_cst(v) == Some(l) {
                        m.insert(k, v);
                    }
                    continue;
                }
                n += 1;
                if n > 40 {
                    break;
                }
                if y.simp(k) == y.simp(v) {
                    m.insert(k, v);
                }
            }
            out.eqs = Rc::new(m);
        }
        if Rc::ptr_eq(&a.rng, &b.rng) {
            out.rng = a.rng.clone();
        } else {
            let mut m = BTreeMap::new();
            let keys: std::collections::BTreeSet<T> = a.rng.keys().chain(b.rng.keys()).copied().collect();
            for k in keys {
                let (x, y) = (a.range(k), b.range(k));
                let r = (x.0.min(y.0), x.1.max(y.1));
                let s = static_range(k).unwrap_or((-INF, INF));
                if r.0 > s.0 || r.1 < s.1 {
                    m.insert(k, r);
                }
            }
            out.rng = Rc::new(m);
        }
        if Rc::ptr_eq(&a.dom, &b.dom) && Rc::ptr_eq(&a.rng, &b.rng) {
            out.dom = a.dom.clone();
        } else {
            let mut m = BTreeMap::new();
            let keys: std::collections::BTreeSet<T> = a.rng.keys().chain(b.rng.keys()).copied().collect();
            for k in keys {
                if matches!(node(k), Node::Eq0(_) | Node::Ge0(_) | Node::Fold { .. }) {
                    continue;
                }
                let (Some(x), Some(y)) = (a.vals(k, 64), b.vals(k, 64)) else { continue };
                let mut w: Vec<i128> = x.into_iter().chain(y).collect();
                w.sort();
                w.dedup();
                if w.len() > 1 && w.len() <= 256 && w[w.len() - 1] - w[0] + 1 != w.len() as i128 {
                    m.insert(k, w.into());
                }
            }
            out.dom = Rc::new(m);
        }
        if Rc::ptr_eq(&a.was, &b.was) {
            out.was = a.was.clone();
        } else {
            out.was = Rc::new(a.was.iter().filter(|f| b.was.contains(f)).copied().collect());
        }
        if Rc::ptr_eq(&a.ineq, &b.ineq) && Rc::ptr_eq(&a.eqs, &b.eqs) {
            out.ineq = a.ineq.clone();
        } else {
            let mut v: Vec<T> = vec![];
            let bs: HashSet<T> = b.ineq.iter().copied().collect();
            for f in a.ineq.iter() {
                if bs.contains(f) || b.was.contains(f) || b.entails_d(*f, 1) {
                    v.push(*f);
                }
            }
            v.extend(a.was.iter().filter(|f| b.was.contains(f) && !bs.contains(f)).copied());
            let have: HashSet<T> = v.iter().copied().collect();
            for f in b.ineq.iter() {
                if !have.contains(f) && (a.was.contains(f) || a.entails_d(*f, 1)) {
                    v.push(*f);
                }
            }
            // inequalities weakened from one-sided equalities
            for (x, y) in [(a, b), (b, a)] {
                let mut n = 0;
                let mut es: Vec<(T, T)> = x.eqs.iter().filter(|(k, _)| !out.eqs.contains_key(k)).map(|(k, v)| (*k, *v)).collect();
                es.sort();
                for (k, val) in es {
                    if as_cst(val).is_some() {
                        continue;
                    }
                    n += 1;
                    if n > 20 {
                        break;
                    }
                    let d = sub(k, val);
                    for s in [d, neg(d)] {
                        if !v.contains(&s) && y.entails_d(s, 1) {
                            v.push(s);
                        }
                    }
                }
            }
            v.retain(|f| out.range(*f).0 < 0);
            while v.len() > MAX_INEQ {
                evict(&mut v);
            }
            out.ineq = Rc::new(v);
        }
        if Rc::ptr_eq(&a.ne, &b.ne) {
            out.ne = a.ne.clone();
        } else {
            let v: Vec<T> = a.ne.iter().chain(b.ne.iter()).copied().collect::<std::collections::BTreeSet<T>>().into_iter().filter(|f| (a.ne.contains(f) || a.entails_ne(*f, cst(0))) && (b.ne.contains(f) || b.entails_ne(*f, cst(0)))).collect();
            out.ne = Rc::new(v);
        }
        out.touch();
        out
    }
}
