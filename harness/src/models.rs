//! Plain-loop definitions of iterator consumers. The analyser reads these
//! instead of the library's internal-iteration versions.
#![allow(dead_code)]
use arrayvec::ArrayVec;

pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn m_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn m_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i = i.wrapping_add(1);
    }
    None
}
pub fn m_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn m_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn m_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn m_count<I: Iterator>(mut it: I) -> usize {
    let most = it.size_hint().1;
    let mut n = 0usize;
    while let Some(_x) = it.next() {
        n = n.wrapping_add(1);
    }
    match most {
        Some(m) if n > m => m,
        _ => n,
    }
}
pub fn m_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn m_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while let Some(x) = it.next() {
        if k == 0 {
            return Some(x);
        }
        k -= 1;
    }
    None
}
pub fn m_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut r: Option<I::Item> = None;
    while let Some(x) = it.next() {
        r = match r {
            None => Some(x),
            Some(y) => {
                if y > x {
                    Some(y)
                } else {
                    Some(x)
                }
            }
        };
    }
    r
}
pub fn m_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut r: Option<I::Item> = None;
    while let Some(x) = it.next() {
        r = match r {
            None => Some(x),
            Some(y) => {
                if y <= x {
                    Some(y)
                } else {
                    Some(x)
                }
            }
        };
    }
    r
}
pub fn m_sum<I: Iterator<Item = S>, S: core::ops::Add<S, Output = S> + Default>(mut it: I) -> S {
    let mut acc = S::default();
    while let Some(x) = it.next() {
        acc = acc + x;
    }
    acc
}
pub fn m_sum_ref<'a, I: Iterator<Item = &'a S>, S: core::ops::Add<S, Output = S> + Default + Copy + 'a>(mut it: I) -> S {
    let mut acc = S::default();
    while let Some(x) = it.next() {
        acc = acc + *x;
    }
    acc
}
pub fn m_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn m_collect_arrayvec<I: Iterator<Item = T>, T, const N: usize>(mut it: I) -> ArrayVec<T, N> {
    let mut v = ArrayVec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn m_collect_result_vec<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x?);
    }
    Ok(v)
}
pub fn m_collect_option_vec<I: Iterator<Item = Option<T>>, T>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x?);
    }
    Some(v)
}
pub fn m_collect_string_char<I: Iterator<Item = char>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn m_collect_string_str<'a, I: Iterator<Item = &'a str>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(x);
    }
    v
}
pub fn m_collect_string_ref_char<'a, I: Iterator<Item = &'a char>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push(*x);
    }
    v
}
pub fn m_collect_string_string<I: Iterator<Item = String>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(&x);
    }
    v
}
pub fn m_extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn m_extend_vec_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn m_extend_arrayvec<T, I: IntoIterator<Item = T>, const N: usize>(v: &mut ArrayVec<T, N>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn m_zip_next<A: Iterator, B: Iterator>(a: &mut A, b: &mut B) -> Option<(A::Item, B::Item)> {
    let x = a.next()?;
    let y = b.next()?;
    Some((x, y))
}

/// Stand-in for a block cipher: puts the vector and then the key where the plaintext would be, so that a
/// specification can see which ones were used. A buffer that is not made of whole blocks is an error.
pub fn m_decrypt<'a, E>(key: [u8; 16], iv: [u8; 16], buf: &'a mut [u8]) -> Result<&'a [u8], E> {
    if buf.len() % 16 != 0 {
        return Err(crate::spec::any());
    }
    if buf.len() >= 16 {
        buf[..16].copy_from_slice(&iv);
    }
    if buf.len() >= 32 {
        buf[16..32].copy_from_slice(&key);
    }
    Ok(buf)
}
pub fn m_digit(c: u8, radix: u32) -> Option<u32> {
    let d = if c >= b'0' && c <= b'9' {
        c - b'0'
    } else if c >= b'a' && c <= b'z' {
        c - b'a' + 10
    } else if c >= b'A' && c <= b'Z' {
        c - b'A' + 10
    } else {
        return None;
    };
    if (d as u32) < radix {
        Some(d as u32)
    } else {
        None
    }
}
pub fn m_radix_u8<E>(s: &str, radix: u32) -> Result<u8, E> {
    let b = s.as_bytes();
    if b.is_empty() {
        return Err(crate::spec::any());
    }
    let mut i = 0;
    if b[0] == b'+' {
        if b.len() == 1 {
            return Err(crate::spec::any());
        }
        i = 1;
    }
    let mut v = 0u32;
    while i < b.len() {
        match m_digit(b[i], radix) {
            Some(d) => v = v * radix + d,
            None => return Err(crate::spec::any()),
        }
        if v > 255 {
            return Err(crate::spec::any());
        }
        i += 1;
    }
    Ok(v as u8)
}
pub fn m_cmp_bytes(a: &[u8], b: &[u8]) -> core::cmp::Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] < b[i] {
            return core::cmp::Ordering::Less;
        }
        if a[i] > b[i] {
            return core::cmp::Ordering::Greater;
        }
        i += 1;
    }
    a.len().cmp(&b.len())
}
#[cfg(feature = "full")]
pub fn m_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let all = core::mem::take(v);
    for x in all {
        if f(&x) {
            v.push(x);
        }
    }
}
