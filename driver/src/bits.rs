//! Bit-level normalisation of terms.
use crate::term::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Src {
    Const(i128),
    Atom(T, u8),
}
#[derive(Clone, Copy, Debug)]
pub struct Piece {
    pub dst: u8,
    pub w: u8,
    pub src: Src,
}

fn width(hi: i128) -> u8 {
    if hi <= 0 { 0 } else { (128 - hi.leading_zeros()) as u8 }
}

/// decompose a non-negative term into disjoint bit pieces
pub fn to_bits(t: T) -> Option<Vec<Piece>> {
    let (c, v) = lin(t);
    if c < 0 {
        return None;
    }
    let mut used: u128 = 0;
    let mut out = vec![];
    let mut c = c;
    for &(a, k) in v.iter() {
        if k < 0 && (-k & (-k - 1)) == 0 && is_bool(a) && (c & -k) != 0 {
            // 2^s * (1 - bit)
            c += k;
            let s = k.trailing_zeros() as u8;
            if s > 118 || used & (1u128 << s) != 0 {
                return None;
            }
            used |= 1u128 << s;
            out.push(Piece { dst: s, w: 1, src: Src::Atom(not(a), 0) });
            continue;
        }
        if k <= 0 {
            return None;
        }
        let (lo, hi) = static_range(a)?;
        if lo < 0 {
            return None;
        }
        let w = width(hi);
        let mut kk = k as u128;
        while kk != 0 {
            // copies of the same bits at several places
            let s = kk.trailing_zeros() as u8;
            kk &= kk - 1;
            if s as u32 + w as u32 > 120 {
                return None;
            }
            let m = ((1u128 << w) - 1) << s;
            if used & m != 0 {
                return None;
            }
            used |= m;
            if let Node::Word(bs) = node(a) {
                for (i, b) in bs.iter().enumerate() {
                    if let Some(p) = bit_piece(s + i as u8, *b) {
                        out.push(p);
                    }
                }
                continue;
            }
            let src = match node(a) {
                Node::Field { a, lo, .. } => Src::Atom(a, lo),
                _ => Src::Atom(a, 0),
            };
            out.push(Piece { dst: s, w, src });
        }
    }
    if (c as u128) & used != 0 {
        return None;
    }
    // constant runs
    let mut i = 0u8;
    let mut cc = c as u128;
    while cc != 0 {
        let z = cc.trailing_zeros() as u8;
        i += z;
        cc >>= z;
        let o = cc.trailing_ones() as u8;
        out.push(Piece { dst: i, w: o, src: Src::Const((1i128 << o) - 1) });
        i += o;
        cc >>= o;
    }
    out.sort_by_key(|p| p.dst);
    Some(out)
}

pub fn from_bits(mut ps: Vec<Piece>) -> T {
    ps.retain(|p| p.w > 0);
    ps.sort_by_key(|p| p.dst);
    let mut m: Vec<Piece> = vec![];
    for p in ps {
        if let Some(l) = m.last_mut() {
            if let (Src::Atom(a, al), Src::Atom(b, bl)) = (l.src, p.src) {
                if a == b && l.dst + l.w == p.dst && al + l.w == bl {
                    l.w += p.w;
                    continue;
                }
            }
        }
        m.push(p);
    }
    let mut c = 0i128;
    let mut v: Vec<(T, i128)> = vec![];
    // a one-bit atom at several positions: keep the word explicit
    {
        let mut seen: Vec<T> = vec![];
        let mut dup = false;
        for p in &m {
            if let (Src::Atom(a, lo), 1) = (p.src, p.w) {
                let f = field(a, lo, 1);
                let (_, fv) = lin(f);
                for (x, _) in fv.iter() {
                    if seen.contains(x) {
                        dup = true;
                    }
                    seen.push(*x);
                }
            }
        }
        if dup {
            let n = m.last().map_or(0, |p| p.dst + p.w);
            let bs: Vec<T> = (0..n).map(|i| bit_of(&m, i)).collect();
            return mk(Node::Word(bs.into()));
        }
    }
    for p in m {
        match p.src {
            Src::Const(k) => c += k << p.dst,
            Src::Atom(a, lo) => {
                let f = field(a, lo, p.w);
                let (fc, fv) = lin(f);
                c += fc << p.dst;
                for (x, k) in fv.iter() {
                    v.push((*x, k << p.dst));
                }
            }
        }
    }
    mklin(c, v)
}

pub fn slice_bits(ps: &[Piece], lo: u8, w: u8) -> Vec<Piece> {
    let mut out = vec![];
    let (a, b) = (lo as i32, lo as i32 + w as i32);
    for p in ps {
        let (x, y) = (p.dst as i32, p.dst as i32 + p.w as i32);
        let s = x.max(a);
        let e = y.min(b);
        if s >= e {
            continue;
        }
        let sk = (s - x) as u8;
        let nw = (e - s) as u8;
        let src = match p.src {
            Src::Const(c) => Src::Const((c >> sk) & ((1i128 << nw) - 1)),
            Src::Atom(t, l) => Src::Atom(t, l + sk),
        };
        out.push(Piece { dst: (s - a) as u8, w: nw, src });
    }
    out
}

/// floor(a / 2^lo) mod 2^w
pub fn field(a: T, lo: u8, w: u8) -> T {
    if w == 0 {
        return cst(0);
    }
    if w > 100 {
        if lo == 0 {
            return a;
        }
    }
    if let Some(c) = as_cst(a) {
        return cst((c >> lo) & ((1i128 << w) - 1));
    }
    if lo == 0 {
        if let Some((l, h)) = static_range(a) {
            if l >= 0 && h < (1i128 << w) {
                return a;
            }
        }
    }
    if let Some(r) = tab_map(a, &|x| Some((x >> lo) & ((1i128 << w) - 1))) {
        return r;
    }
    if let Node::Field { a: b, lo: l2, w: w2 } = node(a) {
        if lo >= w2 {
            return cst(0);
        }
        return field(b, l2 + lo, w.min(w2 - lo));
    }
    if let Node::Word(bs) = node(a) {
        let n = bs.len() as u8;
        if lo >= n {
            return cst(0);
        }
        return word(&bs[lo as usize..(lo as usize + w as usize).min(n as usize)]);
    }
    if is_atom(a) {
        if let Some((l, h)) = static_range(a) {
            if l >= 0 {
                let ww = width(h);
                if lo >= ww {
                    return cst(0);
                }
                let w = w.min(ww - lo);
                if lo == 0 && w == ww {
                    return a;
                }
                return mk(Node::Field { a, lo, w });
            }
        }
        return mk(Node::Field { a, lo, w });
    }
    if let Some(ps) = to_bits(a) {
        return from_bits(slice_bits(&ps, lo, w));
    }
    // linear, not bit-disjoint: reduce modulo 2^(lo+w)
    let m = 1i128 << (lo + w);
    let (c, v) = lin(a);
    let nv: Vec<(T, i128)> = v.iter().map(|x| (x.0, { let r = x.1.rem_euclid(m); if r > m / 2 { r - m } else { r } })).collect();
    let nc = c.rem_euclid(m);
    // (low fields of inner Field(a,0,w') with w' >= lo+w could be unfolded)
    let mut acc = cst(nc);
    for (x, k) in nv {
        let x = match node(x) {
            Node::Field { a: inner, lo: 0, w: wi } if wi >= lo + w => inner,
            _ => x,
        };
        acc = lincomb(acc, 1, x, k);
    }
    let (c2, v2) = lin(acc);
    let a2 = mklin(c2.rem_euclid(m), v2.iter().map(|x| (x.0, { let r = x.1.rem_euclid(m); if r > m / 2 { r - m } else { r } })).collect());
    if a2 != a {
        return field(a2, lo, w);
    }
    mk(Node::Field { a: a2, lo, w })
}

pub fn and(a: T, b: T) -> T {
    let (a, b) = if as_cst(a).is_some() { (b, a) } else { (a, b) };
    if a == b {
        return a;
    }
    if let Some(m) = as_cst(b) {
        if m == 0 {
            return cst(0);
        }
        if m > 0 {
            let mut acc = cst(0);
            let mut mm = m as u128;
            let mut pos = 0u8;
            while mm != 0 {
                let z = mm.trailing_zeros() as u8;
                pos += z;
                mm >>= z;
                let o = mm.trailing_ones() as u8;
                let f = field(a, pos, o.min(100));
                acc = lincomb(acc, 1, f, 1i128 << pos);
                pos += o;
                if o >= 128 {
                    break;
                }
                mm >>= o;
            }
            // re-normalise adjacent fields
            if let Some(ps) = to_bits(acc) {
                return from_bits(ps);
            }
            return acc;
        }
    }
    // booleans
    if let (Some((0, 1)), Some((0, 1))) = (static_range(a), static_range(b)) {
        if add(a, b) == cst(1) {
            return cst(0);
        }
        let (a, b) = (a.min(b), a.max(b));
        return mk(Node::Bin { op: B::And, a, b });
    }
    let (a, b) = (a.min(b), a.max(b));
    mk(Node::Bin { op: B::And, a, b })
}
pub fn or(a: T, b: T) -> T {
    if a == b {
        return a;
    }
    if let (Some(x), Some(y)) = (as_cst(a), as_cst(b)) {
        return cst(x | y);
    }
    if as_cst(a) == Some(0) {
        return b;
    }
    if as_cst(b) == Some(0) {
        return a;
    }
    let bo = |t| matches!(static_range(t), Some((l, h)) if l >= 0 && h <= 1);
    if bo(a) && bo(b) {
        // a | b == !( !a & !b )
        if as_cst(a) == Some(1) || as_cst(b) == Some(1) {
            return cst(1);
        }
        return not(and(not(a), not(b)));
    }
    if let (Some(pa), Some(pb)) = (to_bits(a), to_bits(b)) {
        let mask = |ps: &[Piece]| ps.iter().fold(0u128, |m, p| m | (((1u128 << p.w) - 1) << p.dst));
        if mask(&pa) & mask(&pb) == 0 {
            let mut v = pa;
            v.extend(pb);
            return from_bits(v);
        }
        // constant overlaps: clear those bits in the other operand
        for (x, px, py) in [(a, &pa, &pb), (b, &pb, &pa)] {
            if let Some(c) = as_cst(x) {
                let mut v = vec![];
                let c = c as u128;
                let _ = px;
                let mut i = 0;
                while i < 120u8 {
                    if (c >> i) & 1 == 0 {
                        let mut j = i;
                        while j < 120 && (c >> j) & 1 == 0 {
                            j += 1;
                        }
                        for mut p in slice_bits(py, i, j - i) {
                            p.dst += i;
                            v.push(p);
                        }
                        i = j;
                    } else {
                        i += 1;
                    }
                }
                return lincomb(from_bits(v), 1, cst(c as i128), 1);
            }
        }
    }
    // low bits below a multiple of a power of two, which may be negative
    for (x, y) in [(a, b), (b, a)] {
        if let Some((0.., h)) = static_range(x) {
            let k = width(h);
            let (c, v) = lin(y);
            let m = 1i128.checked_shl(k as u32).unwrap_or(0);
            if k < 120 && c % m == 0 && v.iter().all(|t| t.1 % m == 0) {
                return lincomb(x, 1, y, 1);
            }
        }
    }
    let (a, b) = (a.min(b), a.max(b));
    mk(Node::Bin { op: B::Or, a, b })
}
pub fn xor(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_cst(a), as_cst(b)) {
        return cst(x ^ y);
    }
    if a == b {
        return cst(0);
    }
    let bo = |t| matches!(static_range(t), Some((l, h)) if l >= 0 && h <= 1);
    if bo(a) && bo(b) {
        return bxor(&[a, b]);
    }
    for (x, y) in [(a, b), (b, a)] {
        if let Some(c) = as_cst(x) {
            if c == 0 {
                return y;
            }
            if c > 0 {
                if let Some((l, h)) = static_range(y) {
                    if l >= 0 && h <= c && (c & (c + 1)) == 0 {
                        return sub(cst(c), y);
                    }
                }
                // flip a bit set: y + c - 2*(y & c)
                if let Some(t) = xor_bits(a, b) {
                    return t;
                }
                return lincomb(add(y, cst(c)), 1, and(y, cst(c)), -2);
            }
        }
    }
    if let (Some(pa), Some(pb)) = (to_bits(a), to_bits(b)) {
        let mask = |ps: &[Piece]| ps.iter().fold(0u128, |m, p| m | (((1u128 << p.w) - 1) << p.dst));
        if mask(&pa) & mask(&pb) == 0 {
            let mut v = pa;
            v.extend(pb);
            return from_bits(v);
        }
        if let Some(t) = xor_bits(a, b) {
            return t;
        }
    }
    let (a, b) = (a.min(b), a.max(b));
    mk(Node::Bin { op: B::Xor, a, b })
}
fn bit_piece(dst: u8, t: T) -> Option<Piece> {
    match as_cst(t) {
        Some(0) => None,
        Some(_) => Some(Piece { dst, w: 1, src: Src::Const(1) }),
        None => Some(match node(t) {
            Node::Field { a, lo, .. } => Piece { dst, w: 1, src: Src::Atom(a, lo) },
            _ => Piece { dst, w: 1, src: Src::Atom(t, 0) },
        }),
    }
}
pub fn word(bits: &[T]) -> T {
    from_bits(bits.iter().enumerate().filter_map(|(i, b)| bit_piece(i as u8, *b)).collect())
}
fn bit_of(ps: &[Piece], i: u8) -> T {
    let s = slice_bits(ps, i, 1);
    match s.first() {
        None => cst(0),
        Some(_) => from_bits(s),
    }
}
fn mask_of(ps: &[Piece]) -> u128 {
    ps.iter().fold(0u128, |m, p| m | (((1u128 << p.w) - 1) << p.dst))
}
/// exclusive or, bit by bit where both operands may have ones
fn xor_bits(a: T, b: T) -> Option<T> {
    let (pa, pb) = (to_bits(a)?, to_bits(b)?);
    xor_pieces(&pa, &pb)
}
fn xor_pieces(pa: &[Piece], pb: &[Piece]) -> Option<T> {
    let (ma, mb) = (mask_of(pa), mask_of(pb));
    let both = ma & mb;
    if both.count_ones() > 64 {
        return None;
    }
    let mut out = vec![];
    for (ps, only) in [(pa, ma & !mb), (pb, mb & !ma)] {
        let mut i = 0u8;
        while i < 120 {
            if (only >> i) & 1 == 0 {
                i += 1;
                continue;
            }
            let n = (only >> i).trailing_ones() as u8;
            for mut p in slice_bits(ps, i, n) {
                p.dst += i;
                out.push(p);
            }
            i += n;
        }
    }
    for i in 0..120u8 {
        if (both >> i) & 1 == 1 {
            let t = bxor(&[bit_of(pa, i), bit_of(pb, i)]);
            out.extend(bit_piece(i, t));
        }
    }
    Some(from_bits(out))
}
/// if c then a else b, when a and b differ by complementing a fixed set of bits
pub fn ite_bits(c: T, a: T, b: T) -> Option<T> {
    let (pa, pb) = (to_bits(a)?, to_bits(b)?);
    let m = mask_of(&pa) | mask_of(&pb);
    if m.count_ones() > 32 {
        return None;
    }
    let mut flip = 0u128;
    for i in 0..120u8 {
        if (m >> i) & 1 == 1 {
            let (x, y) = (bit_of(&pa, i), bit_of(&pb, i));
            if x == y {
                continue;
            }
            if add(x, y) != cst(1) {
                return None;
            }
            flip |= 1 << i;
        }
    }
    let mut acc = vec![];
    for i in 0..120u8 {
        if (flip >> i) & 1 == 1 {
            acc.extend(bit_piece(i, c));
        }
    }
    xor_pieces(&pb, &acc)
}

pub fn shr(a: T, k: T) -> T {
    if let Some(n) = as_cst(k) {
        if n == 0 {
            return a;
        }
        if let Some(c) = as_cst(a) {
            return cst(if n >= 127 { if c < 0 { -1 } else { 0 } } else { c >> n });
        }
        if let Some((l, h)) = static_range(a) {
            if l >= 0 {
                let w = width(h);
                if n >= w as i128 {
                    return cst(0);
                }
                return field(a, n as u8, w - n as u8);
            }
        }
    }
    mk(Node::Bin { op: B::Shr, a, b: k })
}
/// a << k inside an integer of type `ik`
pub fn shl(a: T, k: T, ik: IK) -> T {
    if let Some(n) = as_cst(k) {
        if n == 0 {
            return a;
        }
        if n >= 0 && n < ik.bits as i128 {
            if let Some((l, h)) = static_range(a) {
                if l >= ik.lo() >> n && h <= ik.hi() >> n {
                    return scale(a, 1i128 << n);
                }
            }
            return wrap(scale(a, 1i128 << n), ik);
        }
    }
    let t = mk(Node::Bin { op: B::Shl, a, b: k });
    wrap(t, ik)
}
/// the value of type `k` congruent to `a`
pub fn wrap(a: T, k: IK) -> T {
    if let Some(c) = as_cst(a) {
        return cst(wrap_const(c, k));
    }
    if let Some((l, h)) = static_range(a) {
        if l >= k.lo() && h <= k.hi() {
            return a;
        }
    }
    if k.bits > 64 {
        return mk(Node::Wrap { a, k });
    }
    if let Some(r) = tab_map(a, &|x| Some(wrap_const(x, k))) {
        return r;
    }
    let f = field(a, 0, k.bits);
    if !k.signed {
        return f;
    }
    if let Some((_, h)) = static_range(f) {
        if h < (1i128 << (k.bits - 1)) {
            return f;
        }
    }
    let top = field(a, k.bits - 1, 1);
    lincomb(f, 1, top, -(1i128 << k.bits))
}
pub fn bin(op: B, a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (as_cst(a), as_cst(b)) {
        if let Some(v) = fold_bin(op, x, y) {
            return cst(v);
        }
    }
    if let Some(y) = as_cst(b) {
        if let Some(r) = tab_map(a, &|x| fold_bin(op, x, y)) {
            return r;
        }
    }
    if let Some(x) = as_cst(a) {
        if let Some(r) = tab_map(b, &|y| fold_bin(op, x, y)) {
            return r;
        }
    }
    match op {
        B::And => and(a, b),
        B::Or => or(a, b),
        B::Xor => xor(a, b),
        B::Shr => shr(a, b),
        B::Mul => {
            if let Some(k) = as_cst(b) {
                return scale(a, k);
            }
            if let Some(k) = as_cst(a) {
                return scale(b, k);
            }
            let (a, b) = (a.min(b), a.max(b));
            mk(Node::Bin { op, a, b })
        }
        B::Min | B::Max => {
            if a == b {
                return a;
            }
            if let Some(d) = as_cst(sub(a, b)) {
                return if (d < 0) == (op == B::Min) { a } else { b };
            }
            if let (Some(x), Some(y)) = (static_range(a), static_range(b)) {
                if x.1 <= y.0 {
                    return if op == B::Min { a } else { b };
                }
                if y.1 <= x.0 {
                    return if op == B::Min { b } else { a };
                }
            }
            let (a, b) = (a.min(b), a.max(b));
            mk(Node::Bin { op, a, b })
        }
        B::Div => {
            if as_cst(b) == Some(1) {
                return a;
            }
            if let (Some(k), Some((l, h))) = (as_cst(b), static_range(a)) {
                if k > 0 && l >= 0 {
                    if h < k {
                        return cst(0);
                    }
                    if k & (k - 1) == 0 {
                        return shr(a, cst(k.trailing_zeros() as i128));
                    }
                }
            }
            mk(Node::Bin { op, a, b })
        }
        B::Rem => {
            if let (Some(k), Some((l, h))) = (as_cst(b), static_range(a)) {
                if k > 0 && l >= 0 {
                    if h < k {
                        return a;
                    }
                    if k & (k - 1) == 0 {
                        return field(a, 0, k.trailing_zeros() as u8);
                    }
                }
            }
            mk(Node::Bin { op, a, b })
        }
        B::Shl => {
            if let Some(k) = as_cst(b) {
                if (0..100).contains(&k) {
                    return scale(a, 1i128 << k);
                }
            }
            mk(Node::Bin { op, a, b })
        }
    }
}

/// expand all bit-field relations in a linear term down to single bits of shared atoms
pub fn expand(t: T) -> T {
    let (c, v) = lin(t);
    use std::collections::HashSet;
    let mut fielded: HashSet<T> = HashSet::new();
    for (a, _) in v.iter() {
        if let Node::Field { a: b, .. } = node(*a) {
            fielded.insert(b);
        }
    }
    if fielded.is_empty() {
        return t;
    }
    let mut acc = cst(c);
    for &(a, k) in v.iter() {
        match node(a) {
            Node::Field { a: b, lo, w } if w <= 64 => {
                for i in 0..w {
                    let f = field(b, lo + i, 1);
                    acc = lincomb(acc, 1, f, k << i);
                }
            }
            _ if fielded.contains(&a) => {
                match static_range(a) {
                    Some((l, h)) if l >= 0 && width(h) <= 64 => {
                        for i in 0..width(h) {
                            let f = field(a, i, 1);
                            acc = lincomb(acc, 1, f, k << i);
                        }
                    }
                    _ => acc = lincomb(acc, 1, a, k),
                }
            }
            _ => acc = lincomb(acc, 1, a, k),
        }
    }
    acc
}
