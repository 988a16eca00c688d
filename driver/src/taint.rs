//! Where the bytes of a secret can flow: an interprocedural dataflow analysis over monomorphic MIR with
//! access paths (fields, variants, dereferences). Functions are summarised per set of tainted inputs.
//! Copies of pointers propagate in both directions, so that a write through one pointer is seen by all.
use rustc_data_structures::fx::FxHashMap;
use rustc_hir as hir;
use rustc_middle::mir::{self, CastKind, Local, Operand, Place, PlaceElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum P {
    F(u32),
    D(u32),
    Deref,
}
type Path = Vec<P>;
const LIMIT: usize = 12;

struct Why {
    func: String,
    site: String,
    repo: bool,
    prev: Option<Rc<Why>>,
}
/// a formal position: 0 the result, i the i-th argument
type Formal = (usize, Path);
type Input = BTreeSet<Formal>;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// the sixteen-byte arrays in the arguments of the given functions; branches on them count
    Args,
    /// every sixteen-byte array held by a function of this crate; branches on them count
    Bytes,
    /// text named `key`; branches (validation) do not count and hexadecimal decoders consume it
    Text,
}
pub struct Taint<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    memo: FxHashMap<(Instance<'tcx>, Input), Rc<BTreeMap<Formal, Rc<Why>>>>,
    busy: Vec<(Instance<'tcx>, Input)>,
    found: BTreeMap<(String, String, String), String>,
    functions: BTreeSet<String>,
    ciphers: BTreeMap<String, usize>,
    opaque: BTreeMap<String, usize>,
    trace: bool,
    mode: Mode,
    seeds: usize,
    statements: usize,
    calls: usize,
}
/// crates whose purpose is to consume the key
fn is_cipher(k: &str) -> bool {
    matches!(k, "aes" | "cbc" | "cipher" | "crypto_common" | "inout" | "block_padding" | "aead" | "aes_gcm" | "ccm" | "ctr" | "ghash" | "polyval" | "cipher_sink")
}
fn starts(a: &[P], b: &[P]) -> bool {
    a.len() >= b.len() && &a[..b.len()] == b
}
struct Fun<'a, 'tcx> {
    t: &'a mut Taint<'tcx>,
    inst: Instance<'tcx>,
    body: &'a mir::Body<'tcx>,
    name: String,
    repo: bool,
    cipher: bool,
    set: BTreeMap<Local, Vec<(Path, Rc<Why>)>>,
    changed: bool,
}
impl<'a, 'tcx> Fun<'a, 'tcx> {
    fn path(&self, p: &Place<'tcx>) -> Path {
        let mut v = vec![];
        for e in p.projection {
            match e {
                PlaceElem::Deref => v.push(P::Deref),
                PlaceElem::Field(f, _) => v.push(P::F(f.as_u32())),
                PlaceElem::Downcast(_, i) => v.push(P::D(i.as_u32())),
                _ => {}
            }
        }
        v
    }
    fn at(&self, sp: Span, prev: Option<Rc<Why>>) -> Rc<Why> {
        let sp = sp.source_callsite();
        let l = self.t.tcx.sess.source_map().lookup_char_pos(sp.lo());
        Rc::new(Why { func: self.name.clone(), site: format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line), repo: self.repo, prev })
    }
    fn add(&mut self, l: Local, mut p: Path, w: Rc<Why>) {
        p.truncate(LIMIT);
        let v = self.set.entry(l).or_default();
        if v.iter().any(|(q, _)| starts(&p, q)) {
            return;
        }
        v.retain(|(q, _)| !starts(q, &p));
        if self.t.trace {
            eprintln!("{} {l:?} {p:?} {}", self.name, w.site);
        }
        v.push((p, w));
        self.changed = true;
    }
    /// tainted parts of a place, relative to it
    fn below(&self, l: Local, p: &[P]) -> Vec<(Path, Rc<Why>)> {
        let mut out = vec![];
        for (q, w) in self.set.get(&l).map(|v| v.as_slice()).unwrap_or(&[]) {
            if starts(q, p) {
                out.push((q[p.len()..].to_vec(), w.clone()));
            } else if starts(p, q) {
                out.push((vec![], w.clone()));
            }
        }
        out
    }
    fn op_place(&self, o: &Operand<'tcx>) -> Option<(Local, Path)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Some((p.local, self.path(p))),
            _ => None,
        }
    }
    fn op_below(&self, o: &Operand<'tcx>) -> Vec<(Path, Rc<Why>)> {
        self.op_place(o).map(|(l, p)| self.below(l, &p)).unwrap_or_default()
    }
    /// the value itself (not what it points to or contains) is tainted
    fn value(&self, o: &Operand<'tcx>) -> Option<Rc<Why>> {
        self.op_below(o).into_iter().find(|x| x.0.is_empty()).map(|x| x.1)
    }
    fn has_mut(&self, t: Ty<'tcx>) -> bool {
        let tcx = self.t.tcx;
        t.walk().any(|x| match x.as_type().map(|t| t.kind()) {
            Some(ty::Ref(_, _, m)) => m.is_mut(),
            Some(ty::RawPtr(..)) => true,
            Some(ty::Adt(a, _)) => {
                let n = tcx.def_path_str(a.did());
                a.is_box() || n.contains("NonNull") || n.contains("Unique") || n.contains("Vec") || n.contains("String") || n.contains("Iter") || n.contains("Formatter")
            }
            _ => false,
        })
    }
    /// dst = src with a rewriting of suffixes; pointers also propagate backwards
    fn copy(&mut self, dst: (Local, Path), src: (Local, Path), ty: Ty<'tcx>, sp: Span, map: &dyn Fn(&[P]) -> Path, back: &dyn Fn(&[P]) -> Path) {
        for (s, w) in self.below(src.0, &src.1) {
            let mut d = dst.1.clone();
            d.extend(map(&s));
            let w = self.at(sp, Some(w));
            self.add(dst.0, d, w);
        }
        if self.has_mut(ty) {
            for (s, w) in self.below(dst.0, &dst.1) {
                if s.contains(&P::Deref) {
                    let mut d = src.1.clone();
                    d.extend(back(&s));
                    let w = self.at(sp, Some(w));
                    self.add(src.0, d, w);
                }
            }
        }
    }
    fn same(s: &[P]) -> Path {
        s.to_vec()
    }
    fn assign_op(&mut self, dst: (Local, Path), o: &Operand<'tcx>, sp: Span) {
        if let Some(src) = self.op_place(o) {
            let ty = o.ty(self.body, self.t.tcx);
            self.copy(dst, src, ty, sp, &Self::same, &Self::same);
        }
    }
    fn elem(t: Ty<'tcx>) -> Ty<'tcx> {
        match t.kind() {
            ty::Slice(x) | ty::Array(x, _) => Self::elem(*x),
            _ => t,
        }
    }
    fn ptr_path(&self, t: Ty<'tcx>, depth: usize) -> Option<Path> {
        self.t.ptr_path(t, depth)
    }
    fn pointee(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match t.kind() {
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => Some(*x),
            _ => None,
        }
    }
    fn rvalue(&mut self, place: &Place<'tcx>, rv: &Rvalue<'tcx>, sp: Span) {
        let tcx = self.t.tcx;
        let dst = (place.local, self.path(place));
        match rv {
            Rvalue::Use(o, ..) => self.assign_op(dst, o, sp),
            Rvalue::Repeat(o, _) => self.assign_op(dst, o, sp),
            Rvalue::CopyForDeref(p) => {
                let src = (p.local, self.path(p));
                let ty = p.ty(self.body, tcx).ty;
                self.copy(dst, src, ty, sp, &Self::same, &Self::same);
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                let mutable = !matches!(rv, Rvalue::Ref(_, mir::BorrowKind::Shared, _));
                let pp = self.path(p);
                for (s, w) in self.below(p.local, &pp) {
                    let mut d = dst.1.clone();
                    d.push(P::Deref);
                    d.extend(s);
                    let w = self.at(sp, Some(w));
                    self.add(dst.0, d, w);
                }
                if mutable || self.has_mut(p.ty(self.body, tcx).ty) {
                    for (s, w) in self.below(dst.0, &dst.1) {
                        if s.first() == Some(&P::Deref) && (mutable || s[1..].contains(&P::Deref)) {
                            let mut d = pp.clone();
                            d.extend_from_slice(&s[1..]);
                            let w = self.at(sp, Some(w));
                            self.add(p.local, d, w);
                        }
                    }
                }
            }
            Rvalue::Cast(k, o, t) => {
                let Some(src) = self.op_place(o) else { return };
                let st = o.ty(self.body, tcx);
                if st == *t {
                    self.copy(dst, src, *t, sp, &Self::same, &Self::same);
                    return;
                }
                if let (Some(a), Some(b)) = (Self::pointee(st), Self::pointee(*t)) {
                    let keep = Self::elem(a) == Self::elem(b) || matches!(k, CastKind::PointerCoercion(..)) || b.is_trait() || matches!((a.kind(), b.kind()), (ty::Str, ty::Slice(_)) | (ty::Slice(_), ty::Str));
                    if let (false, Some(x), Some(y)) = (keep, self.ptr_path(a, 0), self.ptr_path(b, 0)) {
                        let re = |x: Path, y: Path| {
                            move |s: &[P]| -> Path {
                                if s.is_empty() || s[0] != P::Deref {
                                    return s.to_vec();
                                }
                                let mut r = vec![P::Deref];
                                if starts(&s[1..], &x) {
                                    r.extend_from_slice(&y);
                                    r.extend_from_slice(&s[1 + x.len()..]);
                                }
                                r
                            }
                        };
                        let (f, g) = (re(x.clone(), y.clone()), re(y, x));
                        self.copy(dst, src, *t, sp, &f, &g);
                        return;
                    }
                    let flat = move |s: &[P]| -> Path {
                        if keep || s.len() < 2 || s[0] != P::Deref {
                            s.to_vec()
                        } else {
                            vec![P::Deref]
                        }
                    };
                    self.copy(dst, src, *t, sp, &flat, &flat);
                    return;
                }
                if matches!(k, CastKind::Transmute) || matches!(k, CastKind::PointerCoercion(..)) {
                    if let (Some(a), Some(b)) = (self.ptr_path(st, 0), self.ptr_path(*t, 0)) {
                        let (a2, b2) = (a.clone(), b.clone());
                        let fwd = move |s: &[P]| -> Path {
                            if starts(s, &a) {
                                let mut r = b.clone();
                                r.extend_from_slice(&s[a.len()..]);
                                r
                            } else {
                                vec![]
                            }
                        };
                        let bwd = move |s: &[P]| -> Path {
                            if starts(s, &b2) {
                                let mut r = a2.clone();
                                r.extend_from_slice(&s[b2.len()..]);
                                r
                            } else {
                                vec![]
                            }
                        };
                        self.copy(dst, src, *t, sp, &fwd, &bwd);
                        return;
                    }
                    if self.ptr_path(st, 0).is_some() != self.ptr_path(*t, 0).is_some() {
                        // an address is not what it points to
                        if let Some(w) = self.value(o) {
                            let w = self.at(sp, Some(w));
                            self.add(dst.0, dst.1, w);
                        }
                        return;
                    }
                    let whole = |_: &[P]| -> Path { vec![] };
                    let keep = st == *t;
                    if keep {
                        self.copy(dst, src, *t, sp, &Self::same, &Self::same);
                    } else {
                        self.copy(dst, src, *t, sp, &whole, &whole);
                    }
                    return;
                }
                self.copy(dst, src, *t, sp, &Self::same, &Self::same);
            }
            Rvalue::BinaryOp(op, b) => {
                if *op == mir::BinOp::Offset {
                    self.assign_op(dst, &b.0, sp);
                    return;
                }
                for o in [&b.0, &b.1] {
                    if let Some(w) = self.value(o) {
                        let w = self.at(sp, Some(w));
                        self.add(dst.0, dst.1.clone(), w);
                    }
                }
            }
            Rvalue::UnaryOp(_, o) => {
                if let Some(w) = self.value(o) {
                    let w = self.at(sp, Some(w));
                    self.add(dst.0, dst.1, w);
                }
            }
            Rvalue::Discriminant(p) => {
                let pp = self.path(p);
                if let Some((_, w)) = self.below(p.local, &pp).into_iter().find(|x| x.0.is_empty()) {
                    let w = self.at(sp, Some(w));
                    self.add(dst.0, dst.1, w);
                }
            }
            Rvalue::Aggregate(k, ops) => {
                for (i, o) in ops.iter_enumerated() {
                    let mut d = dst.clone();
                    match &**k {
                        mir::AggregateKind::Array(_) => {}
                        mir::AggregateKind::RawPtr(..) => {
                            if i.as_usize() != 0 {
                                continue;
                            }
                        }
                        mir::AggregateKind::Adt(def, v, _, _, f) => {
                            if tcx.adt_def(*def).is_enum() {
                                d.1.push(P::D(v.as_u32()));
                            }
                            d.1.push(P::F(f.map(|x| x.as_u32()).unwrap_or(i.as_u32())));
                        }
                        _ => d.1.push(P::F(i.as_u32())),
                    }
                    self.assign_op(d, o, sp);
                }
            }
            _ => {}
        }
    }
    /// sources inside a function of the crate itself
    fn seed(&mut self) {
        let tcx = self.t.tcx;
        if !self.inst.def_id().is_local() || self.t.mode == Mode::Args {
            return;
        }
        for (l, d) in self.body.local_decls.iter_enumerated() {
            if self.t.mode == Mode::Bytes {
                let mut out = vec![];
                self.t.secrets(d.ty, vec![], &mut out, 0);
                for p in out {
                    let w = self.at(d.source_info.span, None);
                    self.add(l, p, w);
                }
            } else {
                let mut out = vec![];
                self.t.fields(d.ty, vec![], &mut out, 0);
                for p in out {
                    let w = self.at(d.source_info.span, None);
                    self.add(l, p, w);
                }
            }
        }
        let _ = tcx;
        self.t.seeds += self.set.values().map(|v| v.len()).sum::<usize>();
    }
    fn run(&mut self) {
        let n = self.body.basic_blocks.len();
        let mut rounds = 0;
        loop {
            self.changed = false;
            for b in 0..n {
                let bb = &self.body.basic_blocks[mir::BasicBlock::from_usize(b)];
                for s in &bb.statements {
                    self.t.statements += 1;
                    match &s.kind {
                        StatementKind::Assign(x) => self.rvalue(&x.0, &x.1, s.source_info.span),
                        StatementKind::Intrinsic(i) => {
                            if let mir::NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i {
                                self.memcpy(&c.src, &c.dst, s.source_info.span);
                            }
                        }
                        _ => {}
                    }
                }
                let t = bb.terminator();
                let sp = t.source_info.span;
                match &t.kind {
                    TerminatorKind::Call { func, args, destination, .. } => {
                        let a: Vec<&Operand<'tcx>> = args.iter().map(|x| &x.node).collect();
                        self.call(func, &a, destination, sp);
                    }
                    TerminatorKind::SwitchInt { discr, .. } => {
                        if let (Some(w), false) = (self.value(discr), self.cipher || self.t.mode == Mode::Text) {
                            self.sink("branch on the secret", "", sp, w);
                        }
                    }
                    TerminatorKind::Assert { cond, .. } => {
                        if let (Some(w), false) = (self.value(cond), self.cipher || self.t.mode == Mode::Text) {
                            self.sink("branch on the secret", "", sp, w);
                        }
                    }
                    _ => {}
                }
            }
            rounds += 1;
            if !self.changed || rounds > 200 {
                break;
            }
        }
        if self.changed {
            let w = self.at(self.body.span, None);
            self.sink("no fixed point", "", self.body.span, w);
        }
    }
    fn memcpy(&mut self, src: &Operand<'tcx>, dst: &Operand<'tcx>, sp: Span) {
        let (Some(mut s), Some(mut d)) = (self.op_place(src), self.op_place(dst)) else { return };
        s.1.push(P::Deref);
        d.1.push(P::Deref);
        let ty = Self::pointee(src.ty(self.body, self.t.tcx)).unwrap_or(self.t.tcx.types.u8);
        self.copy(d, s, ty, sp, &Self::same, &Self::same);
    }
    fn sink(&mut self, kind: &str, what: &str, sp: Span, w: Rc<Why>) {
        let here = self.at(sp, Some(w));
        let chain = chain(&here);
        // the last place in the repository
        let mut c: Option<&Rc<Why>> = Some(&here);
        let mut at = (here.func.clone(), here.site.clone());
        while let Some(x) = c {
            if x.repo {
                at = (x.func.clone(), x.site.clone());
                break;
            }
            if kind == "panic message" && x.func.contains("pyo3::") {
                // raised by the binding generator about its own invariants
                return;
            }
            c = x.prev.as_ref();
        }
        self.t.found.entry((format!("{kind}{}{what}", if what.is_empty() { "" } else { ": " }), at.0, at.1)).or_insert(chain);
    }
    fn call(&mut self, func: &Operand<'tcx>, args: &[&Operand<'tcx>], dest: &Place<'tcx>, sp: Span) {
        let tcx = self.t.tcx;
        let dp = (dest.local, self.path(dest));
        let fty = func.ty(self.body, tcx);
        let any = args.iter().any(|a| !self.op_below(a).is_empty()) || self.below(dp.0, &dp.1).iter().any(|x| x.0.contains(&P::Deref));
        if !any {
            return;
        }
        self.t.calls += 1;
        let ty::FnDef(d, ga) = *fty.kind() else {
            self.opaque("call through a pointer", args, dest, sp);
            return;
        };
        let ga = ga.no_bound_vars().expect("bound vars");
        let Ok(Some(i)) = Instance::try_resolve(tcx, self.t.env, d, ga) else {
            self.opaque(&tcx.def_path_str(d), args, dest, sp);
            return;
        };
        let krate = tcx.crate_name(i.def_id().krate).to_string();
        if is_cipher(&krate) {
            *self.t.ciphers.entry(tcx.def_path_str(i.def_id())).or_default() += 1;
            return;
        }
        if self.t.mode == Mode::Text {
            let n = tcx.def_path_str(i.def_id());
            if krate == "hex" || n.ends_with("decode_hex_bytes") {
                *self.t.ciphers.entry(n).or_default() += 1;
                return;
            }
        }
        if tcx.is_constructor(i.def_id()) {
            let rt = dest.ty(self.body, tcx).ty;
            for (k, a) in args.iter().enumerate() {
                let mut d = dp.clone();
                if let ty::Adt(adt, _) = rt.kind() {
                    if adt.is_enum() {
                        d.1.push(P::D(adt.variant_index_with_ctor_id(i.def_id()).as_u32()));
                    }
                }
                d.1.push(P::F(k as u32));
                self.assign_op(d, a, sp);
            }
            return;
        }
        match i.def {
            ty::InstanceKind::Intrinsic(d) | ty::InstanceKind::LlvmIntrinsic(d) => {
                let n = tcx.item_name(d).to_string();
                match n.as_str() {
                    "offset" | "arith_offset" | "ptr_mask" | "black_box" => self.assign_op(dp, args[0], sp),
                    "copy_nonoverlapping" | "copy" | "volatile_copy_memory" => self.memcpy(args[0], args[1], sp),
                    "typed_swap_nonoverlapping" => {
                        self.memcpy(args[0], args[1], sp);
                        self.memcpy(args[1], args[0], sp);
                    }
                    "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                        if let Some(mut s) = self.op_place(args[0]) {
                            s.1.push(P::Deref);
                            let t = dest.ty(self.body, tcx).ty;
                            self.copy(dp, s, t, sp, &Self::same, &Self::same);
                        }
                    }
                    "write_via_move" | "volatile_store" => {
                        if let Some(mut d) = self.op_place(args[0]) {
                            d.1.push(P::Deref);
                            self.assign_op(d, args[1], sp);
                        }
                    }
                    "size_of_val" | "align_of_val" | "ptr_offset_from" | "ptr_offset_from_unsigned" | "ptr_metadata" | "assume" | "cold_path" | "size_of" | "assert_inhabited" | "ub_checks" | "const_eval_select" | "is_val_statically_known" => {}
                    "slice_get_unchecked" => self.assign_op(dp, args[0], sp),
                    "aggregate_raw_ptr" => self.assign_op(dp, args[0], sp),
                    "transmute" | "transmute_unchecked" => {
                        let rv = Rvalue::Cast(CastKind::Transmute, args[0].clone(), dest.ty(self.body, tcx).ty);
                        self.rvalue(dest, &rv, sp);
                    }
                    "write_bytes" | "volatile_set_memory" => {
                        if let (Some(mut d), Some(w)) = (self.op_place(args[0]), self.value(args[1])) {
                            d.1.push(P::Deref);
                            let w = self.at(sp, Some(w));
                            self.add(d.0, d.1, w);
                        }
                    }
                    _ => self.opaque(&format!("intrinsic {n}"), args, dest, sp),
                }
                return;
            }
            ty::InstanceKind::Virtual(..) => {
                self.opaque(&format!("dynamic {}", tcx.def_path_str(i.def_id())), args, dest, sp);
                return;
            }
            ty::InstanceKind::Item(d) => {
                let n = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                match n.as_str() {
                    "__rust_realloc" => {
                        let rv = Rvalue::Cast(CastKind::Transmute, args[0].clone(), dest.ty(self.body, tcx).ty);
                        self.rvalue(dest, &rv, sp);
                        return;
                    }
                    "__rust_alloc" | "__rust_alloc_zeroed" | "__rust_dealloc" => return,
                    _ => {}
                }
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    self.opaque(&tcx.def_path_str(d), args, dest, sp);
                    return;
                }
            }
            _ => {}
        }
        // formal positions of the arguments
        let mut pos: Vec<(Local, Path)> = vec![];
        let spread = tcx.is_closure_like(i.def_id()) && matches!(i.def, ty::InstanceKind::Item(_)) && !tcx.is_closure_like(d);
        for (k, a) in args.iter().enumerate() {
            match self.op_place(a) {
                Some((l, p)) => {
                    if spread && k + 1 == args.len() {
                        if let ty::Tuple(ts) = a.ty(self.body, tcx).kind() {
                            for j in 0..ts.len() {
                                let mut q = p.clone();
                                q.push(P::F(j as u32));
                                pos.push((l, q));
                            }
                            continue;
                        }
                    }
                    pos.push((l, p));
                }
                None => pos.push((Local::from_usize(usize::MAX >> 34), vec![])),
            }
        }
        let mut input: Input = Default::default();
        let mut why: BTreeMap<Formal, Rc<Why>> = Default::default();
        for (k, (l, p)) in pos.iter().enumerate() {
            for (s, w) in self.below(*l, p) {
                input.insert((k + 1, s.clone()));
                why.insert((k + 1, s), w);
            }
        }
        for (s, w) in self.below(dp.0, &dp.1) {
            if s.contains(&P::Deref) {
                input.insert((0, s.clone()));
                why.insert((0, s), w);
            }
        }
        if input.is_empty() {
            return;
        }
        let w0 = why.values().next().cloned();
        let Some(out) = self.t.summary(i, &input, w0.map(|w| self.at(sp, Some(w)))) else {
            self.opaque(&format!("recursive {}", tcx.def_path_str(i.def_id())), args, dest, sp);
            return;
        };
        for ((k, s), w) in out.iter() {
            if *k == 0 {
                let mut d = dp.1.clone();
                d.extend_from_slice(s);
                let w = self.at(sp, Some(w.clone()));
                self.add(dp.0, d, w);
            } else if s.contains(&P::Deref) {
                if let Some((l, p)) = pos.get(*k - 1) {
                    let mut d = p.clone();
                    d.extend_from_slice(s);
                    let w = self.at(sp, Some(w.clone()));
                    self.add(*l, d, w);
                }
            }
        }
    }
    /// nothing is known about the callee: whatever it can write may hold what it can read
    fn opaque(&mut self, name: &str, args: &[&Operand<'tcx>], dest: &Place<'tcx>, sp: Span) {
        let tcx = self.t.tcx;
        *self.t.opaque.entry(name.to_string()).or_default() += 1;
        let w = args.iter().find_map(|a| self.op_below(a).into_iter().next().map(|x| x.1));
        let Some(w) = w else { return };
        if dest.ty(self.body, tcx).ty.is_never() {
            // running out of memory reports a size; the binding generators report what the host raised
            let k = tcx.crate_name(self.inst.def_id().krate).to_string();
            if name.ends_with("raw_vec::handle_error") || name.ends_with("handle_alloc_error") || k.starts_with("pyo3") || k == "wasm_bindgen" {
                return;
            }
            self.sink("panic message", name, sp, w);
            return;
        }
        if name.contains("io::") || name.contains("::_print") || name.contains("::_eprint") || name.contains("stdio") {
            self.sink("output", name, sp, w.clone());
        }
        let dp = self.path(dest);
        if !dest.ty(self.body, tcx).ty.is_unit() {
            let x = self.at(sp, Some(w.clone()));
            self.add(dest.local, dp, x);
        }
        for a in args {
            if let Some((l, mut p)) = self.op_place(a) {
                let t = a.ty(self.body, tcx);
                let writes = match t.kind() {
                    ty::Ref(_, _, m) => m.is_mut(),
                    ty::RawPtr(_, m) => m.is_mut(),
                    _ => false,
                };
                if writes {
                    p.push(P::Deref);
                    let x = self.at(sp, Some(w.clone()));
                    self.add(l, p, x);
                }
            }
        }
    }
}
fn chain(w: &Rc<Why>) -> String {
    let mut v = vec![];
    let mut c = Some(w);
    while let Some(x) = c {
        let s = format!("{} [{}]", x.func, x.site);
        if v.last() != Some(&s) {
            v.push(s);
        }
        c = x.prev.as_ref();
        if v.len() > 60 {
            break;
        }
    }
    v.reverse();
    v.join(" > ")
}
impl<'tcx> Taint<'tcx> {
    fn summary(&mut self, i: Instance<'tcx>, input: &Input, why: Option<Rc<Why>>) -> Option<Rc<BTreeMap<Formal, Rc<Why>>>> {
        let key = (i, input.clone());
        if let Some(r) = self.memo.get(&key) {
            return Some(r.clone());
        }
        if self.busy.iter().any(|b| b.0 == i) && self.busy.iter().filter(|b| b.0 == i).count() > 3 || self.busy.contains(&key) {
            return None;
        }
        self.busy.push(key.clone());
        let tcx = self.tcx;
        let body = tcx.instance_mir(i.def).clone();
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body));
        let name = tcx.def_path_str(i.def_id());
        self.functions.insert(name.clone());
        let krate = tcx.crate_name(i.def_id().krate).to_string();
        let mut f = Fun { t: self, inst: i, body: &body, name, repo: crate::models::is_workspace(&krate), cipher: is_cipher(&krate), set: Default::default(), changed: false };
        for (k, p) in input {
            let w = f.at(body.span, why.clone());
            f.add(Local::from_usize(*k), p.clone(), w);
        }
        f.seed();
        f.run();
        let mut out: BTreeMap<Formal, Rc<Why>> = Default::default();
        for k in 0..=body.arg_count {
            for (p, w) in f.set.get(&Local::from_usize(k)).map(|v| v.as_slice()).unwrap_or(&[]) {
                out.insert((k, p.clone()), w.clone());
            }
        }
        self.busy.pop();
        let out = Rc::new(out);
        self.memo.insert(key, out.clone());
        Some(out)
    }
    /// paths of the secret inside a value of this type: arrays of sixteen bytes
    fn secrets(&self, t: Ty<'tcx>, at: Path, out: &mut Vec<Path>, depth: usize) {
        let tcx = self.tcx;
        if depth > 8 {
            return;
        }
        match t.kind() {
            ty::Array(e, n) if *e == tcx.types.u8 && n.try_to_target_usize(tcx) == Some(16) => out.push(at),
            ty::Ref(_, x, _) => {
                let mut p = at;
                p.push(P::Deref);
                self.secrets(*x, p, out, depth + 1)
            }
            ty::Adt(a, ga) => {
                for (vi, v) in a.variants().iter_enumerated() {
                    for (fi, f) in v.fields.iter_enumerated() {
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ga));
                        let mut p = at.clone();
                        if a.is_enum() {
                            p.push(P::D(vi.as_u32()));
                        }
                        p.push(P::F(fi.as_u32()));
                        self.secrets(ft, p, out, depth + 1);
                    }
                }
            }
            _ => {}
        }
    }
    /// VFN: functions whose arguments carry the secret; `name:i` makes the i-th argument the secret as a whole
    pub fn query(tcx: TyCtxt<'tcx>) -> String {
        let want = std::env::var("VFN").unwrap_or_default();
        let mut t = Taint { tcx, env: TypingEnv::fully_monomorphized(), memo: Default::default(), busy: vec![], found: Default::default(), functions: Default::default(), ciphers: Default::default(), opaque: Default::default(), trace: std::env::var_os("VTRACE").is_some(), mode: match std::env::var("VTAINT").unwrap_or_default().as_str() { "bytes" => Mode::Bytes, "text" => Mode::Text, _ => Mode::Args }, seeds: 0, statements: 0, calls: 0 };
        let mut roots = vec![];
        for id in tcx.hir_body_owners() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), hir::def::DefKind::Fn | hir::def::DefKind::AssocFn) || tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let p = tcx.def_path_str(d);
            if !want.split(',').any(|n| p == n || (n.ends_with("::*") && p.starts_with(&n[..n.len() - 1])) || n == "*") {
                continue;
            }
            let i = Instance::mono(tcx, d);
            let body = tcx.instance_mir(i.def);
            let mut input: Input = Default::default();
            for k in 1..=body.arg_count {
                let ty = body.local_decls[Local::from_usize(k)].ty;
                let ty = tcx.normalize_erasing_regions(t.env, ty::Unnormalized::new(ty));
                let mut out = vec![];
                if t.mode == Mode::Text {
                    if body.var_debug_info.iter().any(|v| v.argument_index == Some(k as u16) && v.name.as_str().contains("key")) {
                        t.text(ty, vec![], &mut out, 0);
                    }
                } else {
                    t.secrets(ty, vec![], &mut out, 0);
                }
                for q in out {
                    input.insert((k, q));
                }
            }
            if input.is_empty() && t.mode == Mode::Args {
                continue;
            }
            let Some(o) = t.summary(i, &input, None) else {
                t.found.insert(("no summary".into(), p.clone(), String::new()), String::new());
                continue;
            };
            if !input.is_empty() {
                t.seeds += input.len();
            }
            for ((k, s), w) in o.iter() {
                let kty = tcx.normalize_erasing_regions(t.env, ty::Unnormalized::new(body.local_decls[Local::from_usize(*k)].ty));
                let what = if *k == 0 { "result".to_string() } else { format!("argument {k}") };
                if *k != 0 && (!s.contains(&P::Deref) || input.iter().any(|(a, q)| a == k && starts(s, q))) {
                    continue;
                }
                // a key handed on as a key is judged where it is used
                if t.mode != Mode::Args && t.is_key(kty, s) {
                    continue;
                }
                let mut c: Option<&Rc<Why>> = Some(w);
                let mut at = (w.func.clone(), w.site.clone());
                while let Some(x) = c {
                    if x.repo && x.func != p {
                        at = (x.func.clone(), x.site.clone());
                        break;
                    }
                    c = x.prev.as_ref();
                }
                t.found.entry((format!("the {what} of {p} holds the key"), at.0, at.1)).or_insert(chain(w));
            }
            roots.push(format!("{p} {input:?}"));
        }
        let q = crate::q;
        let mp = |m: &BTreeMap<String, usize>| m.iter().map(|(k, n)| format!("{}:{n}", q(k))).collect::<Vec<_>>().join(",");
        let f: Vec<String> = t.found.iter().map(|((k, f, s), c)| format!("{{\"what\":{},\"func\":{},\"site\":{},\"stack\":{}}}", q(k), q(f), q(s), q(c))).collect();
        format!(
            "{{\"roots\":[{}],\"functions\":[{}],\"sources\":{},\"statements\":{},\"calls\":{},\"summaries\":{},\"consumed_by\":{{{}}},\"opaque\":{{{}}},\"found\":[{}]}}\n",
            roots.iter().map(|r| q(r)).collect::<Vec<_>>().join(","),
            t.functions.iter().map(|r| q(r)).collect::<Vec<_>>().join(","),
            t.seeds,
            t.statements,
            t.calls,
            t.memo.len(),
            mp(&t.ciphers),
            mp(&t.opaque),
            f.join(",\n")
        )
    }
    /// fields leading to the one pointer inside a wrapper
    fn ptr_path(&self, t: Ty<'tcx>, depth: usize) -> Option<Path> {
        let tcx = self.tcx;
        match t.kind() {
            ty::Ref(..) | ty::RawPtr(..) => Some(vec![]),
            ty::Pat(x, _) => self.ptr_path(*x, depth + 1),
            ty::Adt(a, ga) if a.is_struct() && depth < 6 => {
                for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
                    let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ga));
                    if let Some(mut p) = self.ptr_path(ft, depth + 1) {
                        p.insert(0, P::F(i as u32));
                        return Some(p);
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn is_key(&self, mut ty: Ty<'tcx>, p: &[P]) -> bool {
        let tcx = self.tcx;
        let mut variant = None;
        for x in p {
            match (x, ty.kind()) {
                (P::Deref, ty::Ref(_, t, _)) => ty = *t,
                (P::D(v), ty::Adt(..)) => {
                    variant = Some(*v);
                }
                (P::F(i), ty::Adt(a, ga)) => {
                    let v = a.variant(rustc_abi::VariantIdx::from_u32(variant.take().unwrap_or(0)));
                    let Some(f) = v.fields.iter().nth(*i as usize) else { return false };
                    if f.name.as_str().contains("key") && self.mode == Mode::Text {
                        return true;
                    }
                    ty = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ga));
                }
                (P::F(i), ty::Tuple(ts)) if (*i as usize) < ts.len() => ty = ts[*i as usize],
                _ => return false,
            }
        }
        let mut out = vec![];
        self.secrets(ty, vec![], &mut out, 0);
        out.iter().any(|q| q.is_empty())
    }
    /// fields of the crate's own types that hold the text of a key
    fn fields(&self, t: Ty<'tcx>, at: Path, out: &mut Vec<Path>, depth: usize) {
        let tcx = self.tcx;
        let ty::Adt(a, ga) = t.kind() else { return };
        if depth > 4 {
            return;
        }
        for (vi, v) in a.variants().iter_enumerated() {
            for (fi, f) in v.fields.iter_enumerated() {
                let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ga));
                let mut p = at.clone();
                if a.is_enum() {
                    p.push(P::D(vi.as_u32()));
                }
                p.push(P::F(fi.as_u32()));
                if a.did().is_local() && f.name.as_str().contains("key") {
                    self.text(ft, p, out, depth + 1);
                } else {
                    self.fields(ft, p, out, depth + 1);
                }
            }
        }
    }
    /// the text or bytes inside an argument that is a key as a whole
    fn text(&self, t: Ty<'tcx>, at: Path, out: &mut Vec<Path>, depth: usize) {
        let tcx = self.tcx;
        if depth > 8 {
            return;
        }
        match t.kind() {
            ty::Str | ty::Slice(_) | ty::Array(..) => out.push(at),
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let mut p = at;
                p.push(P::Deref);
                match x.kind() {
                    ty::Uint(_) => out.push(p),
                    _ => self.text(*x, p, out, depth + 1),
                }
            }
            ty::Adt(a, ga) => {
                let n = tcx.def_path_str(a.did());
                if n.ends_with("string::String") || n.ends_with("vec::Vec") || n.contains("PyAny") || n.contains("Bound") {
                    let mut p = at;
                    if let (false, Some(q)) = (n.contains("Py"), self.ptr_path(t, 0)) {
                        p.extend(q);
                        p.push(P::Deref);
                    }
                    out.push(p);
                    return;
                }
                for (vi, v) in a.variants().iter_enumerated() {
                    for (fi, f) in v.fields.iter_enumerated() {
                        let ft = tcx.normalize_erasing_regions(self.env, f.ty(tcx, ga));
                        let mut p = at.clone();
                        if a.is_enum() {
                            p.push(P::D(vi.as_u32()));
                        }
                        p.push(P::F(fi.as_u32()));
                        self.text(ft, p, out, depth + 1);
                    }
                }
            }
            _ => {}
        }
    }
}
