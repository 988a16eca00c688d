//! Abstract interpreter over monomorphic MIR.
use crate::bits;
use crate::facts::Facts;
use crate::term::*;
use crate::value::*;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def_id::DefId;
use rustc_index::bit_set::DenseBitSet;
use rustc_middle::mir::{self, BasicBlock, BinOp, Body, CastKind, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub struct LoopInfo {
    pub header: BasicBlock,
    pub blocks: BTreeSet<BasicBlock>,
}
pub struct BodyInfo<'tcx> {
    pub inst: Instance<'tcx>,
    pub body: Body<'tcx>,
    pub rpo_idx: Vec<usize>,
    pub loops: BTreeMap<BasicBlock, LoopInfo>,
    pub live_in: Vec<DenseBitSet<mir::Local>>,
    pub name: String,
    pub crate_name: String,
}

#[derive(Clone, Debug)]
pub struct Obl {
    pub kind: String,
    pub func: String,
    pub site: String,
    pub what: String,
    pub ok: bool,
    pub why: String,
    pub stack: String,
}
#[derive(Clone, Debug)]
pub struct LoopRec {
    pub func: String,
    pub site: String,
    pub ok: bool,
    pub measure: String,
}

pub struct Interp<'tcx> {
    pub loop_splits: u32,
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub bodies: FxHashMap<Instance<'tcx>, Rc<BodyInfo<'tcx>>>,
    pub stack: Vec<Rc<BodyInfo<'tcx>>>,
    pub sites: Vec<(BasicBlock, rustc_span::Span)>,
    pub log: Vec<Obl>,
    pub loops: Vec<LoopRec>,
    pub unsupported: BTreeMap<String, usize>,
    pub opaque_calls: BTreeMap<String, usize>,
    pub functions: BTreeMap<String, usize>,
    pub next_heap: Cell<u32>,
    pub const_heap: BTreeMap<u32, (Ty<'tcx>, V)>,
    pub const_cache: FxHashMap<rustc_middle::mir::interpret::AllocId, u32>,
    pub models: HashMap<String, DefId>,
    pub steps: u64,
    pub deadline: Option<std::time::Instant>,
    pub stopped: bool,
    pub merge_cap: usize,
    pub trace: bool,
    pub key_cache: FxHashMap<DefId, String>,
    pub opts: Opts,
    pub fmt_kinds: Vec<(String, Ty<'tcx>)>,
    pub fmt_opts: Vec<crate::text::Fo>,
}
#[derive(Clone, Default)]
pub struct Opts {
    /// type name fragments whose Vec pushes must tile (start == previous end)
    pub tile_type: Option<String>,
    pub check_fmt: bool,
    /// follow the text that formatting writes
    pub text: bool,
}

pub struct RegionOut<'tcx> {
    pub exits: Vec<(BasicBlock, State<'tcx>)>,
    pub backs: Vec<State<'tcx>>,
    pub returns: Vec<State<'tcx>>,
    /// some exit switch of the loop itself was decided by constants
    pub decided: bool,
}

pub fn ik_of<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>) -> Option<IK> {
    Some(match ty.kind() {
        ty::Bool => BOOL,
        ty::Char => IK { bits: 32, signed: false },
        ty::Int(i) => IK { bits: i.normalize(64).bit_width().map_or(64, |b| if b > 126 { 127 } else { b as u8 }), signed: true },
        ty::Uint(u) => IK { bits: u.normalize(64).bit_width().map_or(64, |b| if b > 126 { 126 } else { b as u8 }), signed: false },
        _ => {
            let _ = tcx;
            return None;
        }
    })
}
pub fn char_range() -> (i128, i128) {
    (0, 0x10FFFF)
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            bodies: FxHashMap::default(),
            stack: vec![],
            sites: vec![],
            log: vec![],
            loops: vec![],
            loop_splits: 0,
            unsupported: BTreeMap::new(),
            opaque_calls: BTreeMap::new(),
            functions: BTreeMap::new(),
            next_heap: Cell::new(1),
            const_heap: BTreeMap::new(),
            const_cache: FxHashMap::default(),
            models: HashMap::new(),
            steps: 0,
            deadline: std::env::var("VBUDGET").ok().and_then(|v| v.parse().ok()).map(|v| std::time::Instant::now() + std::time::Duration::from_secs(v)),
            stopped: false,
            merge_cap: 12,
            trace: std::env::var("VTRACE").is_ok(),
            key_cache: FxHashMap::default(),
            opts: Opts::default(),
            fmt_kinds: vec![],
            fmt_opts: vec![],
        }
    }

    // ---------------------------------------------------------------- bodies
    pub fn body(&mut self, inst: Instance<'tcx>) -> Option<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Some(b.clone());
        }
        let tcx = self.tcx;
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    return None;
                }
            }
            ty::InstanceKind::Shim(_) => {}
            _ => return None,
        }
        let body = tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body));
        let n = body.basic_blocks.len();
        // reverse post order over non-unwind edges
        let succs = |b: BasicBlock| -> Vec<BasicBlock> { normal_succs(&body.basic_blocks[b]) };
        let mut order = vec![];
        let mut seen = vec![false; n];
        let mut st: Vec<(BasicBlock, usize)> = vec![(mir::START_BLOCK, 0)];
        seen[0] = true;
        while let Some((b, i)) = st.pop() {
            let ss = succs(b);
            if i < ss.len() {
                st.push((b, i + 1));
                let t = ss[i];
                if !seen[t.as_usize()] {
                    seen[t.as_usize()] = true;
                    st.push((t, 0));
                }
            } else {
                order.push(b);
            }
        }
        order.reverse();
        let mut rpo_idx = vec![usize::MAX; n];
        for (i, b) in order.iter().enumerate() {
            rpo_idx[b.as_usize()] = i;
        }
        // natural loops (reducible CFG): back edge = edge to a block with smaller or equal rpo
        let mut preds: Vec<Vec<BasicBlock>> = vec![vec![]; n];
        for &b in &order {
            for t in succs(b) {
                preds[t.as_usize()].push(b);
            }
        }
        let mut loops: BTreeMap<BasicBlock, LoopInfo> = BTreeMap::new();
        for &b in &order {
            for t in succs(b) {
                if rpo_idx[t.as_usize()] <= rpo_idx[b.as_usize()] {
                    let l = loops.entry(t).or_insert_with(|| LoopInfo { header: t, blocks: BTreeSet::from([t]) });
                    let mut w = vec![b];
                    while let Some(x) = w.pop() {
                        if l.blocks.insert(x) {
                            w.extend(preds[x.as_usize()].iter().copied());
                        }
                    }
                }
            }
        }
        let live_in = liveness(&body, &order);
        let name = tcx.def_path_str(inst.def_id());
        let crate_name = tcx.crate_name(inst.def_id().krate).to_string();
        let info = Rc::new(BodyInfo { inst, body, rpo_idx, loops, live_in, name, crate_name });
        self.bodies.insert(inst, info.clone());
        Some(info)
    }

    pub fn span_str(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{o:?}"),
        };
        format!("{}:{}", f, lo.line)
    }
    pub fn cur_fn(&self) -> String {
        self.stack.last().map(|b| b.name.clone()).unwrap_or_default()
    }
    /// the innermost frame that is not part of the standard library
    pub fn user_site(&self) -> (String, String) {
        for (i, b) in self.stack.iter().enumerate().rev() {
            if !matches!(b.crate_name.as_str(), "core" | "alloc" | "std") && !b.name.contains("models::") {
                let sp = self.sites[i].1;
                return (b.name.clone(), self.span_str(sp));
            }
        }
        (self.cur_fn(), String::new())
    }
    pub fn stack_str(&self) -> String {
        self.stack.iter().enumerate().map(|(i, b)| format!("{} ({})", b.name, self.span_str(self.sites[i].1).rsplit('/').next().unwrap_or(""))).collect::<Vec<_>>().join(" > ")
    }
    pub fn oblige(&mut self, kind: &str, what: &str, ok: bool, why: String) {
        let (func, site) = self.user_site();
        let stack = if ok { String::new() } else { self.stack_str() };
        self.log.push(Obl { kind: kind.into(), func, site, what: what.into(), ok, why, stack });
    }
    pub fn unsup(&mut self, what: String) {
        let k = format!("{} in {}", what, self.cur_fn());
        *self.unsupported.entry(k).or_insert(0) += 1;
    }

    // ---------------------------------------------------------------- types & values
    pub fn is_adt_named(&self, ty: Ty<'tcx>, name: &str) -> bool {
        match ty.kind() {
            ty::Adt(d, _) => self.adt_name(d.did()) == name,
            _ => false,
        }
    }
    pub fn adt_name(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        format!("{}::{}", k, self.tcx.item_name(d))
    }
    pub fn kind_of(&self, ty: Ty<'tcx>) -> Special {
        match ty.kind() {
            ty::Adt(d, _) => match self.adt_name(d.did()).as_str() {
                "alloc::Vec" => Special::Vec,
                "alloc::String" => Special::Str,
                "arrayvec::ArrayVec" => Special::ArrayVec,
                "arrayvec::ArrayString" => Special::ArrayVec,
                "alloc::Box" => Special::Box,
                "core::Iter" | "core::IterMut" => {
                    let p = self.tcx.def_path_str(d.did());
                    if p.contains("slice::") { Special::SliceIter } else { Special::Opaque }
                }
                "core::Chunks" | "core::ChunksExact" | "core::Windows" | "core::Chars" | "core::CharIndices" => Special::SliceIter,
                "alloc::IntoIter" | "arrayvec::IntoIter" | "core::IntoIter" => {
                    let p = self.tcx.def_path_str(d.did());
                    if p.contains("option::") || p.contains("result::") { Special::None } else { Special::SliceIter }
                }
                "core::PhantomData" => Special::None,
                _ => Special::None,
            },
            _ => Special::None,
        }
    }
    pub fn elem_ty(&self, ty: Ty<'tcx>) -> Option<Ty<'tcx>> {
        match ty.kind() {
            ty::Array(t, _) | ty::Slice(t) => Some(*t),
            ty::Str => Some(self.tcx.types.u8),
            ty::Adt(_, args) => match self.kind_of(ty) {
                Special::Vec => Some(args.type_at(0)),
                Special::ArrayVec => {
                    if self.is_adt_named(ty, "arrayvec::ArrayString") {
                        Some(self.tcx.types.u8)
                    } else {
                        Some(args.type_at(0))
                    }
                }
                Special::Str => Some(self.tcx.types.u8),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn array_len(&self, ty: Ty<'tcx>) -> Option<i128> {
        match ty.kind() {
            ty::Array(_, n) => n.try_to_target_usize(self.tcx).map(|x| x as i128),
            _ => None,
        }
    }
    pub fn field_ty(&self, ty: Ty<'tcx>, var: Option<u32>, f: u32) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        match ty.kind() {
            ty::Adt(d, args) => {
                let v = if d.is_enum() { d.variant(rustc_abi::VariantIdx::from_u32(var?)) } else { d.non_enum_variant() };
                let fd = v.fields.get(rustc_abi::FieldIdx::from_u32(f))?;
                let t = fd.ty(tcx, args);
                Some(tcx.normalize_erasing_regions(self.env, t))
            }
            ty::Tuple(l) => l.get(f as usize).copied(),
            ty::Closure(_, args) => args.as_closure().upvar_tys().get(f as usize).copied(),
            _ => None,
        }
    }
    pub fn fresh_heap(&self) -> u32 {
        let id = self.next_heap.get();
        self.next_heap.set(id + 1);
        id
    }
    pub fn alloc(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, v: V) -> u32 {
        let id = self.fresh_heap();
        Rc::make_mut(&mut st.heap).insert(id, (ty, v));
        id
    }
    pub fn peel_layers(&self, ty: Ty<'tcx>) -> Ty<'tcx> {
        ty
    }

    /// unknown value of a type, one layer deep
    pub fn materialize(&mut self, st: &mut State<'tcx>, ty: Ty<'tcx>, name: &str) -> V {
        if let Some(k) = ik_of(self.tcx, ty) {
            if ty.is_char() {
                return V::I(fresh(name, 0, 0x10FFFF), k);
            }
            return V::I(fresh_k(name, k), k);
        }
        match ty.kind() {
            ty::Float(_) => V::Fl(fresh_float()),
            ty::Tuple(l) => agg(vec![V::Top; l.len()]),
            ty::Closure(_, a) => agg(vec![V::Top; a.as_closure().upvar_tys().len()]),
            ty::FnDef(..) => unit(),
            ty::Array(t, _) => {
                let n = self.array_len(ty).unwrap_or(0);
                let items = match ik_of(self.tcx, *t) {
                    Some(k) => Items::Content(fresh_content(name), k),
                    None if n <= 64 => Items::Known(Rc::new(vec![V::Top; n as usize])),
                    None => Items::Top,
                };
                V::Seq(Rc::new(Seq { len: cst(n), items, cap: None, last: None }))
            }
            ty::Slice(_) | ty::Str => {
                let t = self.elem_ty(ty).unwrap();
                let items = match ik_of(self.tcx, t) {
                    Some(k) => Items::Content(fresh_content(name), k),
                    None => Items::Top,
                };
                V::Seq(Rc::new(Seq { len: fresh("len", 0, i64::MAX as i128), items, cap: None, last: None }))
            }
            ty::Ref(_, t, m) | ty::RawPtr(t, m) => self.mat_ptr(st, *t, m.is_mut(), name),
            ty::Adt(d, args) => match self.kind_of(ty) {
                Special::Vec | Special::Str | Special::ArrayVec => {
                    let t = self.elem_ty(ty).unwrap();
                    let cap = self.cap_of(ty);
                    let items = match ik_of(self.tcx, t) {
                        Some(k) => Items::Content(fresh_content(name), k),
                        None => Items::Top,
                    };
                    V::Seq(Rc::new(Seq { len: fresh("len", 0, cap.unwrap_or(i64::MAX as i128)), items, cap, last: None }))
                }
                Special::Box => self.mat_ptr(st, args.type_at(0), true, name),
                Special::SliceIter | Special::Opaque => V::Top,
                Special::None => {
                    if d.is_enum() {
                        let n = d.variants().len() as i128;
                        if n == 0 {
                            return V::Top;
                        }
                        V::En(Rc::new(En { d: fresh(&format!("{name}.d"), 0, n - 1), vars: vec![] }))
                    } else if d.is_struct() {
                        agg(vec![V::Top; d.non_enum_variant().fields.len()])
                    } else {
                        V::Top
                    }
                }
            },
            _ => V::Top,
        }
    }
    pub fn cap_of(&self, ty: Ty<'tcx>) -> Option<i128> {
        match ty.kind() {
            ty::Adt(_, args) if matches!(self.kind_of(ty), Special::ArrayVec) => args.consts().next().and_then(|c| c.try_to_target_usize(self.tcx)).map(|x| x as i128),
            _ => None,
        }
    }
    fn mat_ptr(&mut self, st: &mut State<'tcx>, t: Ty<'tcx>, mt: bool, name: &str) -> V {
        match t.kind() {
            ty::Slice(_) | ty::Str => {
                let v = self.materialize(st, t, name);
                let len = match &v {
                    V::Seq(s) => s.len,
                    _ => cst(0),
                };
                let id = self.alloc(st, t, v);
                V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: Some((cst(0), len)), mt }))
            }
            ty::Dynamic(..) => V::Top,
            _ => {
                let id = self.alloc(st, t, V::Top);
                V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl: None, mt }))
            }
        }
    }
    /// deep unknown value: used for harness inputs, so that inputs have stable structure
    pub fn base_ty(&self, st: &State<'tcx>, b: Base) -> Option<Ty<'tcx>> {
        match b {
            Base::Loc(d, l) => Some(self.stack.get(d as usize)?.body.local_decls[mir::Local::from_u32(l)].ty),
            Base::Heap(h) => st.heap.get(&h).or_else(|| self.const_heap.get(&h)).map(|x| x.0),
        }
    }
    pub fn base_v(&self, st: &State<'tcx>, b: Base) -> V {
        match b {
            Base::Loc(d, l) => st.frames.get(d as usize).and_then(|f| f.get(l as usize)).cloned().unwrap_or(V::Top),
            Base::Heap(h) => st.heap.get(&h).or_else(|| self.const_heap.get(&h)).map(|x| x.1.clone()).unwrap_or(V::Top),
        }
    }
    pub fn set_base(&self, st: &mut State<'tcx>, b: Base, v: V) {
        match b {
            Base::Loc(d, l) => {
                let f = Rc::make_mut(&mut st.frames[d as usize]);
                f[l as usize] = v;
            }
            Base::Heap(h) => {
                let ty = match st.heap.get(&h).or_else(|| self.const_heap.get(&h)) {
                    Some(x) => x.0,
                    None => return,
                };
                Rc::make_mut(&mut st.heap).insert(h, (ty, v));
            }
        }
    }
    fn step_ty(&self, ty: Option<Ty<'tcx>>, var: Option<u32>, p: &Pj) -> (Option<Ty<'tcx>>, Option<u32>) {
        let Some(t) = ty else { return (None, None) };
        match p {
            Pj::D(v) => (Some(t), Some(*v)),
            Pj::F(f) => {
                if matches!(self.kind_of(t), Special::Box) {
                    return (Some(t), None);
                }
                (self.field_ty(t, var, *f), None)
            }
            Pj::Ix(_) => (self.elem_ty(t), None),
        }
    }
    pub fn ptr_ty(&self, st: &State<'tcx>, p: &Ptr) -> Option<Ty<'tcx>> {
        let mut ty = self.base_ty(st, p.base);
        let mut var = None;
        for x in &p.path {
            (ty, var) = self.step_ty(ty, var, x);
        }
        ty
    }
    pub fn read(&mut self, st: &mut State<'tcx>, p: &Ptr) -> V {
        let v = self.base_v(st, p.base);
        let ty = self.base_ty(st, p.base);
        let (r, nv) = self.read_v(st, &v, ty, None, &p.path);
        if let Some(nv) = nv {
            self.set_base(st, p.base, nv);
        }
        r
    }
    /// returns the value and, when something had to be materialised, the updated container
    fn read_v(&mut self, st: &mut State<'tcx>, v: &V, ty: Option<Ty<'tcx>>, var: Option<u32>, path: &[Pj]) -> (V, Option<V>) {
        let mut cur = v.clone();
        let mut changed = false;
        if matches!(cur, V::Top) {
            let Some(t) = ty else { return (V::Top, None) };
            if var.is_none() {
                cur = self.materialize(st, t, "u");
                if matches!(cur, V::Top) {
                    return (V::Top, None);
                }
                changed = true;
            }
        }
        let Some((h, rest)) = path.split_first() else {
            let r = cur.clone();
            return (r, changed.then_some(cur));
        };
        let (nty, nvar) = self.step_ty(ty, var, h);
        match (h, &cur) {
            (Pj::F(i), V::Agg(f)) => {
                let Some(x) = f.get(*i as usize) else { return (V::Top, None) };
                let x = x.clone();
                let (r, nx) = self.read_v(st, &x, nty, nvar, rest);
                if let Some(nx) = nx {
                    let mut g = (**f).clone();
                    g[*i as usize] = nx;
                    return (r, Some(V::Agg(Rc::new(g))));
                }
                (r, changed.then_some(cur))
            }
            (Pj::F(_), V::P(_)) => {
                // Box / NonNull / Unique internals: transparent
                let (r, nx) = self.read_v(st, &cur.clone(), ty, None, rest);
                (r, nx.or(changed.then_some(cur)))
            }
            (Pj::D(k), V::En(e)) => {
                let fields = match e.vars.iter().find(|x| x.0 == *k) {
                    Some((_, f)) => f.clone(),
                    None => {
                        let n = match ty.map(|t| t.kind()) {
                            Some(ty::Adt(d, _)) if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_u32(*k)).fields.len(),
                            _ => return (V::Top, None),
                        };
                        Rc::new(vec![V::Top; n])
                    }
                };
                let Some((Pj::F(i), rest2)) = rest.split_first() else { return (cur.clone(), None) };
                let fty = ty.and_then(|t| self.field_ty(t, Some(*k), *i));
                let x = fields.get(*i as usize).cloned().unwrap_or(V::Top);
                let (r, nx) = self.read_v(st, &x, fty, None, rest2);
                if let Some(nx) = nx {
                    let mut g = (*fields).clone();
                    if (*i as usize) < g.len() {
                        g[*i as usize] = nx;
                    }
                    let mut e2 = (**e).clone();
                    match e2.vars.iter_mut().find(|x| x.0 == *k) {
                        Some(x) => x.1 = Rc::new(g),
                        None => e2.vars.push((*k, Rc::new(g))),
                    }
                    e2.vars.sort_by_key(|x| x.0);
                    return (r, Some(V::En(Rc::new(e2))));
                }
                (r, changed.then_some(cur))
            }
            (Pj::D(_), V::Agg(_)) => {
                let (r, nx) = self.read_v(st, &cur.clone(), ty, nvar, rest);
                (r, nx.or(changed.then_some(cur)))
            }
            (Pj::Ix(i), V::Seq(s)) => {
                let i = st.facts.simp(*i);
                let s = s.clone();
                match &s.items {
                    Items::Content(c, k) => {
                        let t = read_content(*c, i, *k);
                        (V::I(t, *k), changed.then_some(cur))
                    }
                    Items::Known(f) => {
                        if let Some(n) = as_cst(i) {
                            let Some(x) = f.get(n as usize) else { return (V::Top, None) };
                            let x = x.clone();
                            let (r, nx) = self.read_v(st, &x, nty, None, rest);
                            if let Some(nx) = nx {
                                let mut g = (**f).clone();
                                g[n as usize] = nx;
                                let s2 = Seq { items: Items::Known(Rc::new(g)), ..(*s).clone() };
                                return (r, Some(V::Seq(Rc::new(s2))));
                            }
                            return (r, changed.then_some(cur));
                        }
                        // symbolic index: select among the possible elements
                        let (l, h) = st.facts.range(i);
                        let l = l.max(0) as usize;
                        let h = (h.min(f.len() as i128 - 1)).max(-1);
                        if h < 0 || l as i128 > h {
                            return (V::Top, None);
                        }
                        let els: Vec<V> = f[l..=h as usize].to_vec();
                        if els.iter().all(|x| matches!(x, V::I(..))) && els.len() <= 600 {
                            // ite chain keyed on the index keeps the exact relation
                            let k = match &els[0] {
                                V::I(_, k) => *k,
                                _ => unreachable!(),
                            };
                            let all_const: Option<Vec<i128>> = els.iter().map(|x| if let V::I(t, _) = x { as_cst(*t) } else { None }).collect();
                            if all_const.is_some() {
                                let vals: Vec<T> = els.iter().map(|x| if let V::I(t, _) = x { *t } else { 0 }).collect();
                                let t = mkselect(i, &vals, l as i128);
                                return (V::I(t, k), changed.then_some(cur));
                            }
                        }
                        let mut acc = summarise(&els[0], &st.facts);
                        for x in &els[1..] {
                            acc = summ_join(&acc, &summarise(x, &st.facts));
                        }
                        let (r, _) = self.read_v(st, &freshen(&acc), nty, None, rest);
                        (r, changed.then_some(cur))
                    }
                    Items::Summ(x) => {
                        let x = freshen(x);
                        let (r, _) = self.read_v(st, &x, nty, None, rest);
                        (r, changed.then_some(cur))
                    }
                    Items::Top => {
                        let (r, _) = self.read_v(st, &V::Top, nty, None, rest);
                        (r, changed.then_some(cur))
                    }
                }
            }
            _ => (V::Top, None),
        }
    }
    pub fn write(&mut self, st: &mut State<'tcx>, p: &Ptr, nv: V) {
        if p.path.is_empty() {
            self.set_base(st, p.base, nv);
            return;
        }
        let v = self.base_v(st, p.base);
        let ty = self.base_ty(st, p.base);
        let r = self.write_v(st, &v, ty, None, &p.path, nv);
        self.set_base(st, p.base, r);
    }
    fn write_v(&mut self, st: &mut State<'tcx>, v: &V, ty: Option<Ty<'tcx>>, var: Option<u32>, path: &[Pj], nv: V) -> V {
        let Some((h, rest)) = path.split_first() else { return nv };
        let mut cur = v.clone();
        if matches!(cur, V::Top) {
            let Some(t) = ty else { return V::Top };
            cur = self.materialize(st, t, "u");
        }
        let (nty, nvar) = self.step_ty(ty, var, h);
        match (h, &cur) {
            (Pj::F(i), V::Agg(f)) => {
                let mut g = (**f).clone();
                if (*i as usize) >= g.len() {
                    return V::Top;
                }
                g[*i as usize] = self.write_v(st, &g[*i as usize].clone(), nty, nvar, rest, nv);
                V::Agg(Rc::new(g))
            }
            (Pj::F(_), V::P(_)) => self.write_v(st, &cur.clone(), ty, None, rest, nv),
            (Pj::D(_), V::Agg(_)) => self.write_v(st, &cur.clone(), ty, nvar, rest, nv),
            (Pj::D(k), V::En(e)) => {
                let Some((Pj::F(i), rest2)) = rest.split_first() else { return V::Top };
                let fty = ty.and_then(|t| self.field_ty(t, Some(*k), *i));
                let mut e2 = (**e).clone();
                let n = match ty.map(|t| t.kind()) {
                    Some(ty::Adt(d, _)) if d.is_enum() => d.variant(rustc_abi::VariantIdx::from_u32(*k)).fields.len(),
                    _ => 0,
                };
                let mut fields = match e2.vars.iter().find(|x| x.0 == *k) {
                    Some((_, f)) => (**f).clone(),
                    None => vec![V::Top; n],
                };
                if (*i as usize) < fields.len() {
                    fields[*i as usize] = self.write_v(st, &fields[*i as usize].clone(), fty, None, rest2, nv);
                }
                match e2.vars.iter_mut().find(|x| x.0 == *k) {
                    Some(x) => x.1 = Rc::new(fields),
                    None => e2.vars.push((*k, Rc::new(fields))),
                }
                e2.vars.sort_by_key(|x| x.0);
                V::En(Rc::new(e2))
            }
            (Pj::Ix(i), V::Seq(s)) => {
                let i = st.facts.simp(*i);
                let mut s2 = (**s).clone();
                // turn small integer contents into known elements when written at a constant index
                if let (Items::Content(c, k), Some(n)) = (&s2.items, as_cst(s2.len)) {
                    if n <= 600 {
                        let els: Vec<V> = (0..n).map(|j| V::I(read_content(*c, cst(j), *k), *k)).collect();
                        s2.items = Items::Known(Rc::new(els));
                    }
                }
                let wrote = match (&s2.items, as_cst(i)) {
                    (Items::Known(f), Some(n)) if (n as usize) < f.len() => {
                        let mut g = (**f).clone();
                        g[n as usize] = self.write_v(st, &g[n as usize].clone(), nty, None, rest, nv.clone());
                        Items::Known(Rc::new(g))
                    }
                    (Items::Content(_, k), _) => Items::Content(fresh_content("w"), *k),
                    (Items::Known(f), None) => {
                        if f.iter().all(|x| matches!(x, V::I(..))) && !f.is_empty() {
                            let k = match &f[0] {
                                V::I(_, k) => *k,
                                _ => unreachable!(),
                            };
                            Items::Content(fresh_content("w"), k)
                        } else {
                            Items::Top
                        }
                    }
                    (Items::Summ(x), _) if rest.is_empty() => Items::Summ(summ_join(x, &summarise(&nv, &st.facts))),
                    _ => Items::Top,
                };
                s2.items = wrote;
                s2.last = None;
                V::Seq(Rc::new(s2))
            }
            _ => {
                self.unsup(format!("write through {h:?} of {}", short(&cur)));
                V::Top
            }
        }
    }

    // ---------------------------------------------------------------- places
    pub fn place(&mut self, st: &mut State<'tcx>, place: &Place<'tcx>) -> Option<Ptr> {
        let depth = (self.stack.len() - 1) as u32;
        let mut p = Ptr { base: Base::Loc(depth, place.local.as_u32()), path: vec![], sl: None, mt: true };
        for el in place.projection.iter() {
            match el {
                ProjectionElem::Deref => {
                    let v = self.read(st, &p);
                    match v {
                        V::P(q) => p = (*q).clone(),
                        _ => return None,
                    }
                }
                ProjectionElem::Field(f, _) => p.path.push(Pj::F(f.as_u32())),
                ProjectionElem::Downcast(_, v) => {
                    p.path.push(Pj::D(v.as_u32()));
                }
                ProjectionElem::Index(l) => {
                    let iv = self.read(st, &Ptr { base: Base::Loc(depth, l.as_u32()), path: vec![], sl: None, mt: true });
                    let V::I(i, _) = iv else { return None };
                    let off = p.sl.map_or(cst(0), |s| s.0);
                    p.path.push(Pj::Ix(add(off, i)));
                    p.sl = None;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (off, len) = self.seq_bounds(st, &p)?;
                    let i = if from_end { addc(add(off, len), -(offset as i128)) } else { addc(off, offset as i128) };
                    p.path.push(Pj::Ix(i));
                    p.sl = None;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (off, len) = self.seq_bounds(st, &p)?;
                    let nl = if from_end { addc(len, -((from + to) as i128)) } else { cst((to - from) as i128) };
                    p.sl = Some((addc(off, from as i128), nl));
                }
                _ => {}
            }
        }
        Some(p)
    }
    pub fn seq_bounds(&mut self, st: &mut State<'tcx>, p: &Ptr) -> Option<(T, T)> {
        if let Some(s) = p.sl {
            return Some(s);
        }
        match self.read(st, p) {
            V::Seq(s) => Some((cst(0), s.len)),
            _ => None,
        }
    }
    pub fn read_place(&mut self, st: &mut State<'tcx>, place: &Place<'tcx>) -> V {
        match self.place(st, place) {
            Some(p) => match p.sl {
                Some((o, l)) => {
                    let s = self.subseq(st, &p, o, l);
                    V::Seq(Rc::new(s))
                }
                None => self.read(st, &p),
            },
            None => V::Top,
        }
    }
    pub fn write_place(&mut self, st: &mut State<'tcx>, place: &Place<'tcx>, v: V) {
        match self.place(st, place) {
            Some(p) => match (p.sl, &v) {
                (Some((o, _)), V::Seq(s)) => self.write_range(st, &p, o, &s.clone()),
                (Some(_), _) => self.unsup(format!("write to slice place {place:?}")),
                _ => self.write(st, &p, v),
            },
            None => self.unsup(format!("write to unresolved place {place:?}")),
        }
    }
    pub fn place_ty(&self, place: &Place<'tcx>) -> Ty<'tcx> {
        let b = self.stack.last().unwrap();
        let t = place.ty(&b.body.local_decls, self.tcx).ty;
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(t))
    }
    pub fn op_ty(&self, op: &Operand<'tcx>) -> Ty<'tcx> {
        let b = self.stack.last().unwrap();
        op.ty(&b.body.local_decls, self.tcx)
    }
    pub fn operand(&mut self, st: &mut State<'tcx>, op: &Operand<'tcx>) -> V {
        match op {
            Operand::Copy(p) | Operand::Move(p) => {
                let v = self.read_place(st, p);
                if matches!(v, V::Top) {
                    let t = self.place_ty(p);
                    return self.materialize(st, t, "u");
                }
                v
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(rc) => {
                let b = matches!(rc, mir::RuntimeChecks::OverflowChecks);
                vbool(cst(b as i128))
            }
        }
    }
    pub fn int(&mut self, v: &V) -> Option<T> {
        match v {
            V::I(t, _) => Some(*t),
            _ => None,
        }
    }

    // ---------------------------------------------------------------- constants
    pub fn constant(&mut self, c: &mir::Const<'tcx>) -> V {
        let ty = c.ty();
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(cv) => self.const_value(cv, ty),
            Err(_) => V::Top,
        }
    }
    pub fn const_value(&mut self, cv: mir::ConstValue, ty: Ty<'tcx>) -> V {
        let tcx = self.tcx;
        if let Some(k) = ik_of(tcx, ty) {
            if let Some(s) = self.scalar_of(cv, ty) {
                return V::I(cst(sext(s, k)), k);
            }
            return V::Top;
        }
        match ty.kind() {
            ty::Float(f) => {
                if let Some(s) = self.scalar_of(cv, ty) {
                    let d = match f {
                        ty::FloatTy::F32 => f32::from_bits(s as u32) as f64,
                        ty::FloatTy::F64 => f64::from_bits(s as u64),
                        _ => return V::Top,
                    };
                    return V::Fl(fconst(d));
                }
                V::Top
            }
            ty::FnDef(..) => unit(),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => self.const_ref(cv, *inner),
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                match self.kind_of(ty) {
                    Special::None => {}
                    Special::Vec | Special::Str => {
                        // const Vec::new()/String::new()
                        return V::Seq(Rc::new(Seq { len: cst(0), items: Items::Known(Rc::new(vec![])), cap: None, last: None }));
                    }
                    _ => return V::Top,
                }
                if matches!(ty.kind(), ty::Adt(d, _) if d.is_union()) {
                    return V::Top;
                }
                if matches!(cv, mir::ConstValue::ZeroSized) {
                    if let ty::Adt(d, args) = ty.kind() {
                        if d.is_struct() {
                            let f: Vec<V> = d.non_enum_variant().fields.iter().map(|x| x.ty(tcx, args)).map(|t| { let t = tcx.normalize_erasing_regions(self.env, t); self.const_value(mir::ConstValue::ZeroSized, t) }).collect();
                            return agg(f);
                        }
                    }
                }
                let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, ty) else { return V::Top };
                let fields: Vec<V> = d.fields.iter().map(|(v, t)| self.const_value(*v, *t)).collect();
                match ty.kind() {
                    ty::Array(t, _) => {
                        let n = fields.len();
                        if *t == tcx.types.u8 {
                            let b: Option<Vec<u8>> = fields.iter().map(|v| if let V::I(t, _) = v { as_cst(*t).map(|x| x as u8) } else { None }).collect();
                            if let Some(b) = b {
                                return V::Seq(Rc::new(str_seq(&b)));
                            }
                        }
                        V::Seq(Rc::new(Seq { len: cst(n as i128), items: Items::Known(Rc::new(fields)), cap: None, last: None }))
                    }
                    ty::Adt(a, _) if a.is_enum() => en(d.variant.map_or(0, |v| v.as_u32()), fields),
                    _ => agg(fields),
                }
            }
            ty::FnPtr(..) => V::Top,
            _ => V::Top,
        }
    }
    fn scalar_of(&self, cv: mir::ConstValue, ty: Ty<'tcx>) -> Option<u128> {
        let tcx = self.tcx;
        let size = tcx.layout_of(self.env.as_query_input(ty)).ok()?.size;
        match cv {
            mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => Some(i.to_bits(size)),
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let s = a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, size), false).ok()?;
                match s {
                    rustc_middle::mir::interpret::Scalar::Int(i) => Some(i.to_bits(size)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn const_ref(&mut self, cv: mir::ConstValue, inner: Ty<'tcx>) -> V {
        use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc, Scalar};
        let tcx = self.tcx;
        let ptr_size = tcx.data_layout.pointer_size();
        // (alloc, offset, meta)
        let (aid, off, meta): (rustc_middle::mir::interpret::AllocId, rustc_abi::Size, Option<u64>) = match cv {
            mir::ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off, None)
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let Ok(Scalar::Ptr(p, _)) = a.inner().read_scalar(&tcx, alloc_range(offset, ptr_size), true) else { return V::Top };
                let meta = if matches!(inner.kind(), ty::Slice(_) | ty::Str) {
                    match a.inner().read_scalar(&tcx, alloc_range(offset + ptr_size, ptr_size), false) {
                        Ok(Scalar::Int(i)) => Some(i.to_bits(ptr_size) as u64),
                        _ => return V::Top,
                    }
                } else {
                    None
                };
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off, meta)
            }
            _ => return V::Top,
        };
        let mk_ptr = |id: u32, sl| V::P(Rc::new(Ptr { base: Base::Heap(id), path: vec![], sl, mt: false }));
        let aid = match tcx.global_alloc(aid) {
            GlobalAlloc::Static(d) => {
                if tcx.is_mutable_static(d) || tcx.is_foreign_item(d) {
                    return V::Top;
                }
                match tcx.eval_static_initializer(d) {
                    Ok(a) => tcx.reserve_and_set_memory_alloc(a),
                    Err(_) => return V::Top,
                }
            }
            GlobalAlloc::Memory(_) => aid,
            _ => return V::Top,
        };
        match inner.kind() {
            ty::Slice(t) => {
                let n = meta.unwrap_or(0);
                if let Some(&id) = self.const_cache.get(&aid) {
                    if off.bytes() == 0 && self.const_heap.get(&id).is_some_and(|x| x.0 == inner) {
                        return mk_ptr(id, Some((cst(0), cst(n as i128))));
                    }
                }
                let Ok(aty) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Ty::new_array(tcx, *t, n))) else { return V::Top };
                let v = self.const_value(mir::ConstValue::Indirect { alloc_id: aid, offset: off }, aty);
                let id = self.fresh_heap();
                self.const_heap.insert(id, (inner, v));
                if off.bytes() == 0 {
                    self.const_cache.insert(aid, id);
                }
                mk_ptr(id, Some((cst(0), cst(n as i128))))
            }
            ty::Str => {
                let n = meta.unwrap_or(0);
                let a = tcx.global_alloc(aid).unwrap_memory();
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..(off.bytes() + n) as usize).to_vec();
                let id = self.fresh_heap();
                self.const_heap.insert(id, (inner, V::Seq(Rc::new(str_seq(&b)))));
                mk_ptr(id, Some((cst(0), cst(n as i128))))
            }
            ty::Dynamic(..) => V::Top,
            _ => {
                let v = self.const_value(mir::ConstValue::Indirect { alloc_id: aid, offset: off }, inner);
                let id = self.fresh_heap();
                self.const_heap.insert(id, (inner, v));
                mk_ptr(id, None)
            }
        }
    }

    // ---------------------------------------------------------------- rvalues
    fn rvalue(&mut self, st: &mut State<'tcx>, rv: &Rvalue<'tcx>, dest_ty: Ty<'tcx>) -> V {
        match rv {
            Rvalue::Use(op, ..) => self.operand(st, op),
            Rvalue::Repeat(op, n) => {
                let v = self.operand(st, op);
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                if n <= 600 {
                    V::Seq(Rc::new(Seq { len: cst(n as i128), items: Items::Known(Rc::new(vec![v; n as usize])), cap: None, last: None }))
                } else {
                    V::Seq(Rc::new(Seq { len: cst(n as i128), items: Items::Summ(summarise(&v, &st.facts)), cap: None, last: None }))
                }
            }
            Rvalue::Ref(_, bk, p) => {
                let mt = matches!(bk, mir::BorrowKind::Mut { .. });
                match self.place(st, p) {
                    Some(mut q) => {
                        q.mt = mt;
                        if q.sl.is_none() {
                            let t = self.place_ty(p);
                            if matches!(t.kind(), ty::Slice(_) | ty::Str) {
                                q.sl = self.seq_bounds(st, &q);
                            }
                        }
                        V::P(Rc::new(q))
                    }
                    None => V::Top,
                }
            }
            Rvalue::RawPtr(k, p) => match self.place(st, p) {
                Some(mut q) => {
                    q.mt = matches!(k, mir::RawPtrKind::Mut);
                    V::P(Rc::new(q))
                }
                None => V::Top,
            },
            Rvalue::CopyForDeref(p) => self.read_place(st, p),
            Rvalue::Reborrow(_, _, p) => self.read_place(st, p),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(p);
                let v = self.read_place(st, p);
                self.discriminant(st, &v, t, dest_ty)
            }
            Rvalue::Aggregate(k, ops) => {
                let vals: Vec<V> = ops.iter().map(|o| self.operand(st, o)).collect();
                match &**k {
                    mir::AggregateKind::Array(t) => {
                        if *t == self.tcx.types.u8 && vals.iter().all(|v| matches!(v, V::I(t, _) if as_cst(*t).is_some())) {
                            let b: Vec<u8> = vals.iter().map(|v| if let V::I(t, _) = v { as_cst(*t).unwrap() as u8 } else { 0 }).collect();
                            return V::Seq(Rc::new(str_seq(&b)));
                        }
                        V::Seq(Rc::new(Seq { len: cst(vals.len() as i128), items: Items::Known(Rc::new(vals)), cap: None, last: None }))
                    }
                    mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => agg(vals),
                    mir::AggregateKind::Adt(d, var, _, _, active) => {
                        let adt = self.tcx.adt_def(*d);
                        if adt.is_enum() {
                            en(var.as_u32(), vals)
                        } else if active.is_some() {
                            V::Top
                        } else {
                            agg(vals)
                        }
                    }
                    mir::AggregateKind::RawPtr(pt, _) => {
                        // (data pointer, metadata)
                        match (&vals[0], vals.get(1)) {
                            (V::P(p), Some(V::I(n, _))) if matches!(pt.kind(), ty::Slice(_) | ty::Str) => {
                                let mut q = (**p).clone();
                                if q.sl.is_none() {
                                    if let Some(Pj::Ix(i)) = q.path.last().copied() {
                                        q.path.pop();
                                        q.sl = Some((i, *n));
                                    } else {
                                        q.sl = Some((cst(0), *n));
                                    }
                                } else {
                                    q.sl = Some((q.sl.unwrap().0, *n));
                                }
                                V::P(Rc::new(q))
                            }
                            (V::P(p), _) => V::P(p.clone()),
                            _ => V::Top,
                        }
                    }
                    _ => V::Top,
                }
            }
            Rvalue::BinaryOp(op, ops) => {
                let (o1, o2) = (&ops.0, &ops.1);
                let a = self.operand(st, o1);
                let b = self.operand(st, o2);
                let ty = self.op_ty(o1);
                self.binop(st, *op, a, b, ty)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o);
                let ty = self.op_ty(o);
                match (op, &v) {
                    (UnOp::Not, V::I(t, k)) => {
                        if *k == BOOL || !k.signed {
                            V::I(sub(cst(k.hi()), *t), *k)
                        } else {
                            V::I(addc(neg(*t), -1), *k)
                        }
                    }
                    (UnOp::Neg, V::I(t, k)) => V::I(self.clampk(st, neg(*t), *k), *k),
                    (UnOp::Neg, V::Fl(t)) => V::Fl(fop("neg", &[*t])),
                    (UnOp::PtrMetadata, V::P(p)) => {
                        let _ = ty;
                        match p.sl {
                            Some((_, l)) => vus(l),
                            None => match dest_ty.kind() {
                                ty::Tuple(_) => unit(),
                                _ => match self.seq_bounds(st, &p.clone()) {
                                    Some((_, l)) => vus(l),
                                    None => V::Top,
                                },
                            },
                        }
                    }
                    _ => V::Top,
                }
            }
            Rvalue::Cast(k, o, to) => {
                let v = self.operand(st, o);
                let from = self.op_ty(o);
                self.cast(st, *k, v, from, *to)
            }
            _ => V::Top,
        }
    }
    pub fn discriminant(&mut self, st: &mut State<'tcx>, v: &V, t: Ty<'tcx>, dest_ty: Ty<'tcx>) -> V {
        let k = ik_of(self.tcx, dest_ty).unwrap_or(IK { bits: 64, signed: true });
        match (v, t.kind()) {
            (V::En(e), ty::Adt(d, _)) if d.is_enum() => {
                let ds: Vec<(u32, i128)> = d.discriminants(self.tcx).map(|(v, x)| (v.as_u32(), sext(x.val, k))).collect();
                if ds.iter().all(|(i, x)| *i as i128 == *x) {
                    return V::I(e.d, k);
                }
                let dd = st.facts.simp(e.d);
                if let Some(c) = as_cst(dd) {
                    let x = ds.iter().find(|(i, _)| *i as i128 == c).map_or(0, |x| x.1);
                    return V::I(cst(x), k);
                }
                // select chain
                let es: Vec<(i128, T)> = ds.iter().map(|x| (x.0 as i128, cst(x.1))).collect();
                let def = most(&es);
                V::I(mktab(dd, es, def), k)
            }
            _ => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() && d.variants().len() == 1 {
                        return V::I(cst(0), k);
                    }
                }
                V::I(fresh_k("d", k), k)
            }
        }
    }
    /// the ideal value if it provably fits, otherwise the wrapped one
    pub fn clampk(&mut self, st: &State<'tcx>, t: T, k: IK) -> T {
        if self.fits(st, t, k) { t } else { bits::wrap(t, k) }
    }
    pub fn fits(&self, st: &State<'tcx>, t: T, k: IK) -> bool {
        let (l, h) = st.facts.range(t);
        (l >= k.lo() || st.facts.entails(addc(t, -k.lo()))) && (h <= k.hi() || st.facts.entails(sub(cst(k.hi()), t)))
    }
    pub fn cmp(&mut self, op: BinOp, a: T, b: T) -> T {
        match op {
            BinOp::Eq => eq0(sub(a, b)),
            BinOp::Ne => not(eq0(sub(a, b))),
            BinOp::Lt => ge0(addc(sub(b, a), -1)),
            BinOp::Le => ge0(sub(b, a)),
            BinOp::Gt => ge0(addc(sub(a, b), -1)),
            BinOp::Ge => ge0(sub(a, b)),
            _ => unreachable!(),
        }
    }
    /// quotient and remainder of a sum whose terms that are no multiples of the divisor stay below it
    fn divide(&self, st: &State<'tcx>, x: T, y: T) -> Option<(T, T)> {
        let n = as_cst(y).filter(|n| *n > 1)?;
        let (c, v) = lin(x);
        if st.facts.range(x).0 < 0 {
            return None;
        }
        let (mut q, mut r) = (cst(c.div_euclid(n)), cst(c.rem_euclid(n)));
        for (t, k) in v.iter() {
            q = lincomb(q, 1, *t, k.div_euclid(n));
            r = lincomb(r, 1, *t, k.rem_euclid(n));
        }
        let (l, h) = st.facts.range(r);
        (l >= 0 && h < n).then_some((q, r))
    }
    pub fn arith(&mut self, st: &State<'tcx>, op: BinOp, x: T, y: T, k: IK) -> T {
        use BinOp::*;
        let (x, y) = (st.facts.simp(x), st.facts.simp(y));
        match op {
            Add | AddUnchecked | AddWithOverflow => add(x, y),
            Sub | SubUnchecked | SubWithOverflow => sub(x, y),
            Mul | MulUnchecked | MulWithOverflow => bits::bin(B::Mul, x, y),
            Div => self.divide(st, x, y).map_or_else(|| bits::bin(B::Div, x, y), |p| p.0),
            Rem => self.divide(st, x, y).map_or_else(|| bits::bin(B::Rem, x, y), |p| p.1),
            BitAnd => bits::bin(B::And, x, y),
            BitOr => bits::bin(B::Or, x, y),
            BitXor => {
                if k == BOOL {
                    return bits::xor(x, y);
                }
                bits::bin(B::Xor, x, y)
            }
            Shl | ShlUnchecked => {
                if as_cst(y).is_none() {
                    let (l, h) = st.facts.range(y);
                    let _ = (l, h);
                }
                bits::shl(x, y, k)
            }
            Shr | ShrUnchecked => bits::bin(B::Shr, x, y),
            _ => unreachable!(),
        }
    }
    pub fn binop(&mut self, st: &mut State<'tcx>, op: BinOp, a: V, b: V, ty: Ty<'tcx>) -> V {
        use BinOp::*;
        match (&a, &b) {
            (V::I(x, k), V::I(y, _)) => {
                let (x, y, k) = (*x, *y, *k);
                match op {
                    Eq | Ne | Lt | Le | Gt | Ge => {
                        let (x, y) = (st.facts.simp(x), st.facts.simp(y));
                        let c = self.cmp(op, x, y);
                        match st.facts.truth(c) {
                            Some(b) => vbool(cst(b as i128)),
                            None => vbool(c),
                        }
                    }
                    Cmp => {
                        // Ordering: Less=-1 (variant 0), Equal (1), Greater (2)
                        let lt = self.cmp(Lt, x, y);
                        let gt = self.cmp(Gt, x, y);
                        let d = addc(sub(gt, lt), 1);
                        V::En(Rc::new(En { d, vars: vec![(0, Rc::new(vec![])), (1, Rc::new(vec![])), (2, Rc::new(vec![]))] }))
                    }
                    AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                        let t = self.arith(st, op, x, y, k);
                        let uns = k.lo() == 0;
                        let lo_ok = (uns && op != SubWithOverflow) || st.facts.range(t).0 >= k.lo() || st.facts.entails(addc(t, -k.lo()));
                        let hi_ok = (uns && op == SubWithOverflow) || st.facts.range(t).1 <= k.hi() || st.facts.entails(sub(cst(k.hi()), t));
                        let mut ovf = cst(0);
                        if !lo_ok {
                            ovf = bits::or(ovf, not(ge0(addc(t, -k.lo()))));
                        }
                        if !hi_ok {
                            ovf = bits::or(ovf, not(ge0(sub(cst(k.hi()), t))));
                        }
                        let core = self.stack.last().map_or(false, |b| b.crate_name == "core");
                        let t = if (lo_ok && hi_ok) || !core { t } else { bits::wrap(t, k) };
                        agg(vec![V::I(t, k), vbool(ovf)])
                    }
                    Add | Sub | Mul | AddUnchecked | SubUnchecked | MulUnchecked => {
                        let t = self.arith(st, op, x, y, k);
                        V::I(self.clampk(st, t, k), k)
                    }
                    Shl | ShlUnchecked | Shr | ShrUnchecked => {
                        let y2 = if st.facts.range(y).0 >= 0 && st.facts.range(y).1 < k.bits as i128 { y } else { bits::field(y, 0, k.bits.trailing_zeros() as u8) };
                        let t = self.arith(st, op, x, y2, k);
                        V::I(t, k)
                    }
                    Div | Rem | BitAnd | BitOr | BitXor => {
                        let t = self.arith(st, op, x, y, k);
                        V::I(t, k)
                    }
                    Offset => V::Top,
                }
            }
            (V::Fl(x), V::Fl(y)) => {
                let (x, y) = (*x, *y);
                match op {
                    Eq | Ne | Lt | Le | Gt | Ge => {
                        if let (Some(p), Some(q)) = (fint(x), fint(y)) {
                            return vbool(self.cmp(op, p, q));
                        }
                        if let (Node::FConst(p), Node::FConst(q)) = (node(x), node(y)) {
                            let (p, q) = (f64::from_bits(p), f64::from_bits(q));
                            let r = match op {
                                Eq => p == q,
                                Ne => p != q,
                                Lt => p < q,
                                Le => p <= q,
                                Gt => p > q,
                                _ => p >= q,
                            };
                            return vbool(cst(r as i128));
                        }
                        let (f, neg): (&str, bool) = match op {
                            Eq => ("feq", false),
                            Ne => ("feq", true),
                            Lt => ("flt", false),
                            Le => ("fle", false),
                            Gt => ("fgt", false),
                            _ => ("fge", false),
                        };
                        let t = mk(Node::App { f: f.into(), args: Rc::from([x, y]), lo: 0, hi: 1 });
                        vbool(if neg { not(t) } else { t })
                    }
                    Add | Sub | Mul | Div | Rem => {
                        if let (Some(p), Some(q)) = (fint(x), fint(y)) {
                            let t = match op {
                                Add => Some(add(p, q)),
                                Sub => Some(sub(p, q)),
                                Mul => Some(bits::bin(B::Mul, p, q)),
                                _ => None,
                            };
                            if let Some(t) = t {
                                let (l, h) = st.facts.range(st.facts.simp(t));
                                if let (Mul, Some(0), Some(a), Some(b)) = (op, as_cst(t), as_cst(p), as_cst(q)) {
                                    if a < 0 || b < 0 {
                                        return V::Fl(fconst(-0.0));
                                    }
                                }
                                let m = if ty.is_floating_point() && matches!(ty.kind(), ty::Float(ty::FloatTy::F32)) { 1i128 << 24 } else { 1i128 << 53 };
                                if l >= -m && h <= m {
                                    return V::Fl(mk_fint(t));
                                }
                            }
                        }
                        let (name, comm) = match op {
                            Add => ("fadd", true),
                            Sub => ("fsub", false),
                            Mul => ("fmul", true),
                            Div => ("fdiv", false),
                            _ => ("frem", false),
                        };
                        if let (Some(p), Some(q)) = (fconst_of(x), fconst_of(y)) {
                            if !matches!(ty.kind(), ty::Float(ty::FloatTy::F32)) && !(matches!(op, Div | Rem) && q == 0.0) {
                                let r = match op {
                                    Add => p + q,
                                    Sub => p - q,
                                    Mul => p * q,
                                    Div => p / q,
                                    _ => p % q,
                                };
                                return V::Fl(fconst(r));
                            }
                        }
                        let (x, y) = if comm { (x.min(y), x.max(y)) } else { (x, y) };
                        V::Fl(fop(name, &[x, y]))
                    }
                    _ => V::Top,
                }
            }
            (V::P(p), V::P(q)) => match op {
                Eq | Ne => {
                    if p == q {
                        return vbool(cst((op == Eq) as i128));
                    }
                    vbool(fresh("ptreq", 0, 1))
                }
                Offset => V::Top,
                _ => vbool(fresh("ptrcmp", 0, 1)),
            },
            (V::P(_), V::I(..)) => V::Top,
            _ => match op {
                Eq | Ne | Lt | Le | Gt | Ge => vbool(fresh("cmp", 0, 1)),
                AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                    self.unsup(format!("overflow arithmetic on {} {}", short(&a), short(&b)));
                    agg(vec![V::Top, vbool(fresh("ovf", 0, 1))])
                }
                _ => V::Top,
            },
        }
    }
    pub fn cast(&mut self, st: &mut State<'tcx>, k: CastKind, v: V, from: Ty<'tcx>, to: Ty<'tcx>) -> V {
        use CastKind::*;
        match k {
            IntToInt => {
                let kk = ik_of(self.tcx, to).unwrap_or(USIZE);
                match v {
                    V::I(t, _) => {
                        let t = st.facts.simp(t);
                        V::I(self.clampk(st, t, kk), kk)
                    }
                    V::En(e) => {
                        // C-like enum cast
                        let d = self.discriminant(st, &V::En(e), from, to);
                        match d {
                            V::I(t, _) => V::I(self.clampk(st, t, kk), kk),
                            o => o,
                        }
                    }
                    _ => V::I(fresh_k("cast", kk), kk),
                }
            }
            IntToFloat => match v {
                V::I(t, _) => {
                    let (l, h) = st.facts.range(st.facts.simp(t));
                    let m = if matches!(to.kind(), ty::Float(ty::FloatTy::F32)) { 1i128 << 24 } else { 1i128 << 53 };
                    if l >= -m && h <= m { V::Fl(mk_fint(t)) } else { V::Fl(fop(if m == 1 << 24 { "i2f32" } else { "i2f64" }, &[t])) }
                }
                _ => V::Fl(fresh_float()),
            },
            FloatToInt => {
                let kk = ik_of(self.tcx, to).unwrap_or(USIZE);
                match v {
                    V::Fl(t) => {
                        if let Some(p) = fint(t) {
                            if self.fits(st, p, kk) {
                                return V::I(p, kk);
                            }
                        }
                        V::I(mk(Node::App { f: "f2i".into(), args: Rc::from([t]), lo: kk.lo(), hi: kk.hi() }), kk)
                    }
                    _ => V::I(fresh_k("f2i", kk), kk),
                }
            }
            FloatToFloat => match (&v, to.kind()) {
                (V::Fl(t), ty::Float(ty::FloatTy::F64)) => V::Fl(*t),
                (V::Fl(t), _) => V::Fl(fop("f32", &[*t])),
                _ => V::Fl(fresh_float()),
            },
            PointerCoercion(pc, _) => match (pc, v) {
                (ty::adjustment::PointerCoercion::Unsize, V::P(p)) => {
                    let fe = pointee(from);
                    if let Some(fe) = fe {
                        if let Some(n) = self.array_len(fe) {
                            let mut q = (*p).clone();
                            if q.sl.is_none() {
                                q.sl = Some((cst(0), cst(n)));
                            }
                            return V::P(Rc::new(q));
                        }
                    }
                    V::P(p)
                }
                (_, v) => v,
            },
            PtrToPtr => match v {
                V::P(p) => {
                    // slice pointer to thin pointer
                    let te = pointee(to);
                    let fe = pointee(from);
                    let mut q = (*p).clone();
                    if let (Some(te), Some(fe)) = (te, fe) {
                        if !matches!(te.kind(), ty::Slice(_) | ty::Str) && matches!(fe.kind(), ty::Slice(_) | ty::Str) {
                            if let Some((o, _)) = q.sl {
                                q.sl = None;
                                q.path.push(Pj::Ix(o));
                            }
                        }
                    }
                    V::P(Rc::new(q))
                }
                o => o,
            },
            Transmute => match (&v, ik_of(self.tcx, to)) {
                (V::I(t, k0), Some(kk)) => {
                    if kk.bits == k0.bits { V::I(self.clampk(st, *t, kk), kk) } else { V::I(fresh_k("tr", kk), kk) }
                }
                (V::P(_), None) if to.is_any_ptr() || to.is_ref() => v,
                (V::P(_), None) => v,
                (V::Seq(s), Some(kk)) => {
                    // byte array to integer (native little endian)
                    if let Some(n) = as_cst(s.len) {
                        if n * 8 == kk.bits as i128 {
                            let mut acc = cst(0);
                            let p = self.alloc(st, from, v.clone());
                            for i in 0..n {
                                let e = self.read(st, &Ptr { base: Base::Heap(p), path: vec![Pj::Ix(cst(i))], sl: None, mt: false });
                                let V::I(t, _) = e else { return V::I(fresh_k("tr", kk), kk) };
                                acc = lincomb(acc, 1, t, 1i128 << (8 * i));
                            }
                            return V::I(bits::wrap(acc, kk), kk);
                        }
                    }
                    V::I(fresh_k("tr", kk), kk)
                }
                (V::Fl(t), Some(kk)) => V::I(mk(Node::App { f: "fbits".into(), args: Rc::from([*t]), lo: kk.lo(), hi: kk.hi() }), kk),
                (V::I(t, kk), None) if matches!(to.kind(), ty::Float(_)) => V::Fl(fop(if kk.bits == 32 { "frombits32" } else { "frombits64" }, &[*t])),
                (V::Seq(_), None) if matches!(self.kind_of(to), Special::Str | Special::Vec) || matches!(to.kind(), ty::Array(..)) => v,
                (V::I(..), None) if matches!(to.kind(), ty::Adt(a, _) if self.tcx.is_diagnostic_item(rustc_span::sym::NonZero, a.did())) => v,
                (V::I(t, _), None) if matches!(to.kind(), ty::Adt(a, g) if self.tcx.is_diagnostic_item(rustc_span::sym::Option, a.did()) && matches!(g.type_at(0).kind(), ty::Adt(b, _) if self.tcx.is_diagnostic_item(rustc_span::sym::NonZero, b.did()))) => {
                    let d = not(eq0(*t));
                    V::En(Rc::new(En { d, vars: vec![(1, Rc::new(vec![v.clone()]))] }))
                }
                _ => {
                    if from == to { v } else { V::Top }
                }
            },
            PointerExposeProvenance | PointerWithExposedProvenance => {
                if let Some(kk) = ik_of(self.tcx, to) { V::I(fresh_k("addr", kk), kk) } else { V::Top }
            }
            FnPtrToPtr => V::Top,
            BoxDerefTransmute | Subtype => v,
        }
    }

    // ---------------------------------------------------------------- execution
    pub fn exec_fn(&mut self, mut st: State<'tcx>, inst: Instance<'tcx>, args: Vec<V>) -> Vec<(State<'tcx>, V)> {
        let Some(info) = self.body(inst) else {
            return self.opaque(st, inst, args, None);
        };
        *self.functions.entry(format!("{}::{}", info.crate_name, info.name)).or_insert(0) += 1;
        let rec = self.stack.iter().filter(|b| b.inst == inst).count();
        if rec >= 2 || self.stack.len() > 70 {
            let n = info.name.clone();
            self.oblige("recursion", &format!("recursive call of {n}"), false, "recursion not bounded by the analysis".into());
            return self.opaque(st, inst, args, None);
        }
        let n = info.body.local_decls.len();
        let mut locals = vec![V::Top; n];
        let mut args = args;
        if args.len() != info.body.arg_count {
            // rust-call: untuple the last argument
            if let Some(V::Agg(t)) = args.last().cloned() {
                args.pop();
                args.extend(t.iter().cloned());
            } else if let Some(V::Top) = args.last() {
                args.pop();
            }
        }
        for i in 0..info.body.arg_count {
            locals[i + 1] = args.get(i).cloned().unwrap_or(V::Top);
        }
        st.frames.push(Rc::new(locals));
        self.stack.push(info.clone());
        self.sites.push((mir::START_BLOCK, info.body.span));
        if self.trace {
            eprintln!("{}> {}", " ".repeat(self.stack.len()), info.name);
        }
        let path0 = st.path.clone();
        let out = self.run_region(&info, None, mir::START_BLOCK, vec![st]);
        let _ = path0;
        self.stack.pop();
        self.sites.pop();
        let mut res: Vec<(State<'tcx>, V)> = vec![];
        for mut s in out.returns {
            let f = s.frames.pop().unwrap();
            let v = f[0].clone();
            res.push((s, v));
        }
        if self.trace {
            eprintln!("{}< {} {} returns", " ".repeat(self.stack.len() + 1), info.name, res.len());
            for (_, v) in &res {
                eprintln!("{}    {}", " ".repeat(self.stack.len() + 1), short(v));
            }
        }
        self.merge_returns(res)
    }
    pub fn merge_returns(&mut self, res: Vec<(State<'tcx>, V)>) -> Vec<(State<'tcx>, V)> {
        if res.len() <= 1 {
            return res;
        }
        // carry the return value in the ghost map while merging
        let sts: Vec<State<'tcx>> = res
            .into_iter()
            .map(|(mut s, v)| {
                Rc::make_mut(&mut s.ghost).insert("$ret".into(), v);
                s
            })
            .collect();
        for depth in [3u32, 2, 1, 0] {
            let mut groups: BTreeMap<(String, String), Vec<State<'tcx>>> = BTreeMap::new();
            for s in &sts {
                let k = shape(s.ghost.get("$ret").unwrap(), &s.facts, depth);
                groups.entry((split_key(s), k)).or_default().push(s.clone());
            }
            if groups_ok(&groups, self.merge_cap) || depth == 0 {
                return groups
                    .into_values()
                    .map(|g| {
                        let mut s = self.join_many(g);
                        let v = Rc::make_mut(&mut s.ghost).remove("$ret").unwrap_or(V::Top);
                        (s, v)
                    })
                    .collect();
            }
        }
        unreachable!()
    }

    pub fn join_many(&mut self, mut g: Vec<State<'tcx>>) -> State<'tcx> {
        while g.len() > 1 {
            // pair with the longest common path prefix
            let mut best = (0, 1, -1i64);
            let n = g.len();
            if n <= 40 {
                for i in 0..n {
                    for j in i + 1..n {
                        let (c, _, _) = diverge(&g[i].path, &g[j].path);
                        let d = c.map_or(-1, |p| p.depth as i64);
                        if d > best.2 {
                            best = (i, j, d);
                        }
                    }
                }
            } else {
                // adjacent pairs only
                for i in 0..n - 1 {
                    let (c, _, _) = diverge(&g[i].path, &g[i + 1].path);
                    let d = c.map_or(-1, |p| p.depth as i64);
                    if d > best.2 {
                        best = (i, i + 1, d);
                    }
                }
            }
            let b = g.remove(best.1);
            let a = g.remove(best.0);
            let j = self.join2(&a, &b, "phi");
            g.insert(best.0, j);
        }
        g.pop().unwrap()
    }
    pub fn join2(&mut self, a: &State<'tcx>, b: &State<'tcx>, name: &str) -> State<'tcx> {
        let (common, px, py) = diverge(&a.path, &b.path);
        let g = gate(&px, &py).or_else(|| {
            // a branch condition of one side that is refuted on the other
            for (p, f, pos) in [(&a.path, &b.facts, true), (&b.path, &a.facts, false)] {
                for c in lits_below(p, &common).into_iter().take(6) {
                    if f.truth0(c) == Some(false) {
                        return Some(Gate::Cond(if pos { c } else { not(c) }));
                    }
                }
            }
            // otherwise an unnamed choice, the same for all values joined here
            Some(Gate::Cond(fresh("j", 0, 1)))
        });
        // what was known before the sides parted
        let inter = |x: &Rc<Vec<T>>, y: &Rc<Vec<T>>| {
            if Rc::ptr_eq(x, y) {
                return x.clone();
            }
            let ys: HashSet<T> = y.iter().copied().collect();
            Rc::new(x.iter().copied().filter(|t| ys.contains(t)).collect())
        };
        let pre: Pre = match (&px, &py) {
            (Some(x), Some(y)) => (inter(&x.pre.0, &y.pre.0), inter(&x.pre.1, &y.pre.1)),
            _ => Pre::default(),
        };
        let npath = match (&g, &px, &py) {
            (Some(Gate::Sw(t, p, q)), Some(_), Some(_)) => p.union(q).map_or(common.clone(), |u| {
                let mut s = State { path: common.clone(), ..a.clone() };
                s.push_pv(*t, u);
                s.set_pre(pre.clone());
                s.path
            }),
            _ => match disj(&lits_below(&a.path, &common), &lits_below(&b.path, &common)) {
                Some(d) => {
                    let mut s = State { path: common.clone(), ..a.clone() };
                    let (k, v) = lin(d);
                    if k == 1 && v.len() == 1 && v[0].1 == -1 {
                        s.push_pv(v[0].0, PV::In(vec![0]));
                    } else {
                        s.push_pv(d, PV::In(vec![1]));
                    }
                    s.set_pre(pre.clone());
                    s.path
                }
                None => common.clone(),
            },
        };
        let nh = Cell::new(self.next_heap.get());
        let mut j = Joiner { a, b, gate: g.clone(), memo: HashMap::new(), bases: vec![], changed: vec![], new_heap: vec![], next_heap: &nh, name, lost: vec![], ch: &self.const_heap, pty: &|s, p| self.ptr_ty(s, p) };
        if g.is_none() {
            prepass(&mut j, a, b);
        }
        let mut frames = vec![];
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
            } else {
                frames.push(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| j.v(p, q)).collect::<Vec<_>>()));
            }
        }
        let mut heap = BTreeMap::new();
        if Rc::ptr_eq(&a.heap, &b.heap) {
            heap = (*a.heap).clone();
        } else {
            for (k, (t, v)) in a.heap.iter() {
                match b.heap.get(k) {
                    Some((_, w)) => {
                        heap.insert(*k, (*t, j.v(v, w)));
                    }
                    None => {
                        heap.insert(*k, (*t, v.clone()));
                    }
                }
            }
            for (k, x) in b.heap.iter() {
                if !a.heap.contains_key(k) {
                    heap.insert(*k, x.clone());
                }
            }
        }
        let mut ghost = BTreeMap::new();
        for (k, v) in a.ghost.iter() {
            if let Some(w) = b.ghost.get(k) {
                ghost.insert(k.clone(), j.v(v, w));
            }
        }
        let changed = std::mem::take(&mut j.changed);
        let newh = std::mem::take(&mut j.new_heap);
        let lost = std::mem::take(&mut j.lost);
        drop(j);
        self.next_heap.set(nh.get());
        for (id, t, v) in newh {
            heap.insert(id, (t, v));
        }
        for l in lost {
            self.unsup(l);
        }
        let mut facts = Facts::join(&a.facts, &b.facts);
        facts.keep(&pre.0);
        facts.keep_ne(&pre.1);
        let ends = if changed.is_empty() {
            vec![]
        } else {
            let be: BTreeSet<T> = slice_lens(b);
            slice_lens(a).into_iter().filter(|t| be.contains(t)).collect()
        };
        join_changed(&mut facts, &a.facts, &b.facts, &changed, &ends);
        // what each side was known to satisfy below the point of divergence
        {
            let mut cl: Vec<(T, T)> = vec![];
            for (x, y) in [(&a.facts, &b.facts), (&b.facts, &a.facts)] {
                for c in x.clauses.iter() {
                    if !cl.contains(c) && (y.clauses.contains(c) || y.truth0(c.0) == Some(true) || y.truth0(c.1) == Some(true)) {
                        cl.push(*c);
                    }
                }
            }
            // disjunctions about values that are joined here
            for (x, y, back) in [(&a.facts, &b.facts, false), (&b.facts, &a.facts, true)] {
                if x.clauses.is_empty() {
                    continue;
                }
                let (mut to, mut fro) = (HashMap::new(), HashMap::new());
                for (r, p, q, _) in &changed {
                    let (p, q) = if back { (*q, *p) } else { (*p, *q) };
                    if matches!(node(p), Node::Sym { .. }) && matches!(node(*r), Node::Sym { .. }) && !to.contains_key(&p) {
                        to.insert(p, *r);
                        fro.insert(*r, q);
                    }
                }
                if to.is_empty() {
                    continue;
                }
                let (mut m1, mut m2) = (HashMap::new(), HashMap::new());
                for (p, q) in x.clauses.iter() {
                    let c = (subst(*p, &to, &mut m1), subst(*q, &to, &mut m1));
                    if c == (*p, *q) || cl.contains(&c) {
                        continue;
                    }
                    let o = (y.simp(subst(c.0, &fro, &mut m2)), y.simp(subst(c.1, &fro, &mut m2)));
                    if y.truth0(o.0) == Some(true) || y.truth0(o.1) == Some(true) || y.clauses.iter().any(|z| *z == o || (y.simp(z.0), y.simp(z.1)) == o) {
                        cl.push(c);
                    }
                }
            }
            if let Some(g) = g.as_ref().map(|g| g.cond()) {
                let (pa, pb) = (lits_below(&a.path, &common), lits_below(&b.path, &common));
                if pa.len() + pb.len() <= 8 {
                    for (p, side) in [(not(g), pa), (g, pb)] {
                        for l in side {
                            if add(p, l) != cst(1) && p != l && as_cst(l).is_none() && !cl.contains(&(p, l)) {
                                cl.push((p, l));
                            }
                        }
                    }
                }
            }
            if cl.len() > 24 {
                cl.drain(..cl.len() - 24);
            }
            facts.clauses = Rc::new(cl);
        }
        State { frames, heap: Rc::new(heap), facts, path: npath, ghost: Rc::new(ghost) }
    }

    fn merge_block(&mut self, info: &BodyInfo<'tcx>, bb: BasicBlock, mut sts: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        if sts.is_empty() {
            return sts;
        }
        // forget dead locals
        let live = &info.live_in[bb.as_usize()];
        for s in &mut sts {
            let f = s.frames.last_mut().unwrap();
            let need = (0..f.len()).any(|i| !live.contains(mir::Local::from_usize(i)) && !matches!(f[i], V::Top));
            if need {
                let g = Rc::make_mut(f);
                for i in 0..g.len() {
                    if !live.contains(mir::Local::from_usize(i)) {
                        g[i] = V::Top;
                    }
                }
            }
        }
        if sts.len() == 1 {
            return sts;
        }
        for depth in [3u32, 2, 1, 0] {
            let mut groups: BTreeMap<(String, String), Vec<State<'tcx>>> = BTreeMap::new();
            for s in &sts {
                let f = s.frames.last().unwrap();
                let mut k = String::new();
                if depth > 0 {
                    for i in 0..f.len() {
                        if live.contains(mir::Local::from_usize(i)) {
                            let x = shape(&f[i], &s.facts, depth);
                            if !x.is_empty() && x != "_" {
                                k += &format!("{i}:{x};");
                            }
                        }
                    }
                }
                groups.entry((split_key(s), k)).or_default().push(s.clone());
            }
            if groups_ok(&groups, self.merge_cap) || depth == 0 {
                return groups.into_values().map(|g| self.join_many(g)).collect();
            }
        }
        unreachable!()
    }

    fn run_region(&mut self, info: &Rc<BodyInfo<'tcx>>, region: Option<BasicBlock>, start: BasicBlock, init: Vec<State<'tcx>>) -> RegionOut<'tcx> {
        let mut out = RegionOut { exits: vec![], backs: vec![], returns: vec![], decided: false };
        let mut pending: BTreeMap<usize, (BasicBlock, Vec<State<'tcx>>)> = BTreeMap::new();
        pending.insert(info.rpo_idx[start.as_usize()], (start, init));
        let mut first = true;
        // per exit switch: (all decided by constants and staying?)
        let mut exit_sw: BTreeMap<BasicBlock, bool> = BTreeMap::new();
        // (switches passed, all of them decided by constants)
        let mut all_sw = (0, true);
        let in_region = |b: BasicBlock| match region {
            None => true,
            Some(h) => info.loops[&h].blocks.contains(&b),
        };
        while let Some((_, (bb, sts))) = pending.pop_first() {
            let sts = if first && region.is_some() { sts } else { self.merge_block(info, bb, sts) };
            let is_hdr = info.loops.contains_key(&bb) && !(first && region == Some(bb));
            first = false;
            let mut succ: Vec<(BasicBlock, State<'tcx>)> = vec![];
            if is_hdr {
                for s in sts {
                    let r = self.run_loop(info, bb, s);
                    out.returns.extend(r.returns);
                    succ.extend(r.exits);
                }
            } else {
                for s in sts {
                    let before = succ.len();
                    let rets = self.exec_block(info, bb, s, &mut succ);
                    out.returns.extend(rets);
                    if let (Some(h), TerminatorKind::SwitchInt { .. }) = (region, &info.body.basic_blocks[bb].terminator().kind) {
                        let lp = &info.loops[&h];
                        all_sw.0 += 1;
                        all_sw.1 &= succ.len() == before + 1 && succ[before].1.ghost.contains_key("$det");
                        let has_exit = normal_succs(&info.body.basic_blocks[bb]).iter().any(|t| !lp.blocks.contains(t) && !is_dead_end(&info.body, *t));
                        if has_exit {
                            let new = &succ[before..];
                            let det = new.len() == 1 && new[0].1.ghost.get("$det").is_some() && lp.blocks.contains(&new[0].0);
                            let e = exit_sw.entry(bb).or_insert(true);
                            *e &= det;
                        }
                    }
                    for s in &mut succ[before..] {
                        if s.1.ghost.contains_key("$det") {
                            Rc::make_mut(&mut s.1.ghost).remove("$det");
                        }
                    }
                }
            }
            for (t, s) in succ {
                if s.facts.dead {
                    continue;
                }
                if region == Some(t) {
                    out.backs.push(s);
                } else if !in_region(t) {
                    out.exits.push((t, s));
                } else {
                    pending.entry(info.rpo_idx[t.as_usize()]).or_insert_with(|| (t, vec![])).1.push(s);
                }
            }
        }
        // the loop's own condition comes first in execution order
        out.decided = match exit_sw.iter().min_by_key(|(b, _)| info.rpo_idx[b.as_usize()]) {
            Some(x) => *x.1,
            // the condition was decided before the part of it that leaves
            None => all_sw.0 > 0 && all_sw.1 && out.backs.len() == 1 && out.exits.is_empty(),
        };
        out
    }

    fn run_loop(&mut self, info: &Rc<BodyInfo<'tcx>>, h: BasicBlock, entry: State<'tcx>) -> RegionOut<'tcx> {
        self.run_loop_p(info, h, entry, 330)
    }
    fn run_loop_p(&mut self, info: &Rc<BodyInfo<'tcx>>, h: BasicBlock, entry: State<'tcx>, max_peel: usize) -> RegionOut<'tcx> {
        let (log00, loop00) = (self.log.len(), self.loops.len());
        let mut acc = RegionOut { exits: vec![], backs: vec![], returns: vec![], decided: false };
        let span = info.body.basic_blocks[h].terminator().source_info.span;
        let site = self.span_str(span);
        let first = entry.clone();
        let mut cur = vec![entry];
        let mut peel = 0;
        let (mut e, mut b);
        loop {
            let log0 = self.log.len();
            let loop0 = self.loops.len();
            let r = {
                let sts = std::mem::take(&mut cur);
                let sts = if sts.len() > 1 { self.merge_block(info, h, sts) } else { sts };
                cur = sts.clone();
                self.run_region(info, Some(h), h, sts)
            };
            if r.backs.is_empty() {
                acc.exits.extend(r.exits);
                acc.returns.extend(r.returns);
                self.loops.push(LoopRec { func: info.name.clone(), site, ok: true, measure: format!("{peel} iterations unrolled") });
                return acc;
            }
            if r.decided && peel < max_peel && (peel < 20 || r.backs.len() <= 4) {
                peel += 1;
                acc.exits.extend(r.exits);
                acc.returns.extend(r.returns);
                cur = r.backs;
                if acc.exits.len() > 64 {
                    // merge early to bound the number of live states
                    let ex = std::mem::take(&mut acc.exits);
                    let mut by: BTreeMap<BasicBlock, Vec<State<'tcx>>> = BTreeMap::new();
                    for (t, s) in ex {
                        by.entry(t).or_default().push(s);
                    }
                    for (t, v) in by {
                        for s in self.merge_block(info, t, v) {
                            acc.exits.push((t, s));
                        }
                    }
                }
                continue;
            }
            self.log.truncate(log0);
            self.loops.truncate(loop0);
            // the exit depends on one quantity with few values: one case per value, unrolled
            if self.loop_splits < 2 {
                let vars: Vec<Option<(T, Vec<i128>)>> = cur.iter().map(|s| split_var(s, &r)).collect();
                if vars.iter().any(|v| v.is_some()) {
                    self.loop_splits += 1;
                    for (s, v) in std::mem::take(&mut cur).into_iter().zip(vars) {
                        let Some((t, vs)) = v else {
                            let q = self.run_loop(info, h, s);
                            acc.exits.extend(q.exits);
                            acc.returns.extend(q.returns);
                            continue;
                        };
                        for x in vs {
                            let mut s2 = s.clone();
                            if s2.facts.assume_eq0(addc(t, -x)) && !s2.facts.dead {
                                s2.push_path(t, Ok(x));
                                let q = self.run_loop(info, h, s2);
                                acc.exits.extend(q.exits);
                                acc.returns.extend(q.returns);
                            }
                        }
                    }
                    self.loop_splits -= 1;
                    return acc;
                }
            }
            e = self.join_many(cur.clone());
            // make live-only
            e = self.merge_block(info, h, vec![e]).pop().unwrap();
            let bs = self.merge_block(info, h, r.backs);
            b = self.join_many(bs);
            break;
        }
        // fixpoint
        let mut phis: HashSet<T> = HashSet::new();
        let mut head = e.clone();
        let mut round = 0;
        let trace_loop = std::env::var("VLOOP").is_ok();
        loop {
            head = self.generalise(&head, &b, &mut phis, round, &e);
            if trace_loop {
                eprintln!("loop {} round {} phis {:?}", site, round, phis.iter().map(|p| show(*p)).collect::<Vec<_>>());
                for f in head.facts.ineq.iter() {
                    if mentions(*f, &phis) {
                        eprintln!("   {} >= 0", show(*f));
                    }
                }
            }
            let log0 = self.log.len();
            let loop0 = self.loops.len();
            let r = self.run_region(info, Some(h), h, vec![head.clone()]);
            if r.backs.is_empty() {
                acc.exits.extend(r.exits);
                acc.returns.extend(r.returns);
                self.loops.push(LoopRec { func: info.name.clone(), site, ok: true, measure: "no back edge".into() });
                return acc;
            }
            let bs = self.merge_block(info, h, r.backs);
            let nb = self.join_many(bs);
            match self.subsumes(&head, &nb, &phis) {
                Some(sig) => {
                    // termination measure
                    let (ok, m) = self.measure(&head, &nb, &sig, &phis);
                    self.loops.push(LoopRec { func: info.name.clone(), site: site.clone(), ok, measure: m });
                    let (mut folds, late) = self.find_folds(&first, &e, &head, &nb, &sig, &phis);
                    if late && peel > 0 {
                        // a fold whose first steps were unrolled: count from the start instead
                        self.log.truncate(log00);
                        self.loops.truncate(loop00);
                        return self.run_loop_p(info, h, first, 0);
                    }
                    // the range of a loop variable holds wherever its value is used
                    let mut nar: HashMap<T, T> = HashMap::new();
                    let mut ps: Vec<T> = phis.iter().copied().collect();
                    ps.sort();
                    for p in ps {
                        let (l, h) = head.facts.range(p);
                        let (sl, sh) = static_range(p).unwrap_or((l, h));
                        if l < h && (l > sl || h < sh) {
                            nar.insert(p, fresh("i", l, h));
                        }
                    }
                    if !nar.is_empty() {
                        let mut memo = HashMap::new();
                        for v in folds.values_mut() {
                            *v = subst(*v, &nar, &mut memo);
                        }
                        for (k, v) in nar {
                            folds.entry(k).or_insert(v);
                        }
                    }
                    let mut exits = r.exits;
                    let mut rets = r.returns;
                    if !folds.is_empty() {
                        let (mut memo, mut pm) = (HashMap::new(), HashMap::new());
                        for (_, s) in exits.iter_mut() {
                            subst_state(s, &folds, &mut memo);
                            s.path = subst_path(&s.path, &e.path, &folds, &mut memo, &mut pm);
                        }
                        for s in rets.iter_mut() {
                            subst_state(s, &folds, &mut memo);
                            s.path = subst_path(&s.path, &e.path, &folds, &mut memo, &mut pm);
                        }
                    }
                    // the only way out: having taken it tells nothing
                    if exits.len() == 1 && rets.is_empty() && acc.exits.is_empty() && acc.returns.is_empty() {
                        exits[0].1.path = e.path.clone();
                    }
                    acc.exits.extend(exits);
                    acc.returns.extend(rets);
                    return acc;
                }
                None => {
                    self.log.truncate(log0);
                    self.loops.truncate(loop0);
                    b = nb;
                    round += 1;
                    if round > 24 {
                        self.oblige("analysis", "loop invariant", false, format!("no stable invariant found for the loop at {site}"));
                        acc.exits.extend(r.exits);
                        acc.returns.extend(r.returns);
                        return acc;
                    }
                }
            }
        }
    }

    /// pairs of integer locations (head value, back-edge value)
    fn int_pairs(&self, a: &State<'tcx>, b: &State<'tcx>) -> Vec<(T, T, IK)> {
        let nh = Cell::new(0);
        let j = Joiner { a, b, gate: None, memo: HashMap::new(), bases: vec![], changed: vec![], new_heap: vec![], next_heap: &nh, name: "", lost: vec![], ch: &self.const_heap, pty: &|s, p| self.ptr_ty(s, p) };
        let mut out = vec![];
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if !Rc::ptr_eq(x, y) {
                for (p, q) in x.iter().zip(y.iter()) {
                    j.collect_pairs(p, q, &mut out, 8);
                }
            }
        }
        if !Rc::ptr_eq(&a.heap, &b.heap) {
            for (k, (_, v)) in a.heap.iter() {
                if let Some((_, w)) = b.heap.get(k) {
                    j.collect_pairs(v, w, &mut out, 8);
                }
            }
        }
        for (k, v) in a.ghost.iter() {
            if let Some(w) = b.ghost.get(k) {
                j.collect_pairs(v, w, &mut out, 8);
            }
        }
        out
    }
    /// solve for the value each loop symbol takes at the back edge
    fn solve(&self, head: &State<'tcx>, back: &State<'tcx>, phis: &HashSet<T>) -> HashMap<T, T> {
        let mut sig: HashMap<T, T> = HashMap::new();
        let mut pairs = vec![];
        all_pairs(head, back, &mut pairs);
        // direct first
        for (h, b) in &pairs {
            if phis.contains(h) && !sig.contains_key(h) {
                sig.insert(*h, back.facts.simp(*b));
            }
        }
        for _ in 0..4 {
            let mut ch = false;
            for (h, b) in &pairs {
                let (c, v) = lin(*h);
                let un: Vec<(T, i128)> = v.iter().filter(|x| phis.contains(&x.0) && !sig.contains_key(&x.0)).copied().collect();
                if un.len() != 1 {
                    continue;
                }
                // other atoms must not mention unsolved phis in a non-linear position
                let mut rest = cst(c);
                let mut okk = true;
                let mut memo = HashMap::new();
                for &(a, k) in v.iter() {
                    if a == un[0].0 {
                        continue;
                    }
                    if atoms_of(a).iter().any(|x| phis.contains(x) && !sig.contains_key(x)) {
                        okk = false;
                    }
                    let na = subst(a, &sig, &mut memo);
                    rest = lincomb(rest, 1, na, k);
                }
                if !okk {
                    continue;
                }
                let d = back.facts.simp(sub(*b, rest));
                let (dc, dv) = lin(d);
                let k = un[0].1;
                if dc % k == 0 && dv.iter().all(|x| x.1 % k == 0) {
                    sig.insert(un[0].0, mklin(dc / k, dv.iter().map(|x| (x.0, x.1 / k)).collect()));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        sig
    }
    fn subsumes(&mut self, head: &State<'tcx>, back: &State<'tcx>, phis: &HashSet<T>) -> Option<HashMap<T, T>> {
        let sig = self.solve(head, back, phis);
        let mut memo = HashMap::new();
        // values
        let mut ok = true;
        let mut chk = |h: &V, b: &V| ok &= self.leq_v(h, b, &sig, &mut memo, head, back);
        for (x, y) in head.frames.iter().zip(back.frames.iter()) {
            if !Rc::ptr_eq(x, y) || !phis.is_empty() {
                for (p, q) in x.iter().zip(y.iter()) {
                    chk(p, q);
                }
            }
        }
        for (k, (_, v)) in head.heap.iter() {
            match back.heap.get(k) {
                Some((_, w)) => chk(v, w),
                None => {}
            }
        }
        for (k, v) in head.ghost.iter() {
            match back.ghost.get(k) {
                Some(w) => chk(v, w),
                None => return None,
            }
        }
        if !ok {
            if std::env::var("VLOOP").is_ok() {
                eprintln!("  not subsumed: values");
            }
            return None;
        }
        // facts
        let mut memo = HashMap::new();
        for p in phis {
            if !sig.contains_key(p) && fact_mentions(&head.facts, *p) {
                return None;
            }
        }
        for f in head.facts.ineq.iter() {
            if mentions(*f, phis) {
                let g = subst(*f, &sig, &mut memo);
                if !back.facts.entails(g) {
                    if std::env::var("VLOOP").is_ok() {
                        eprintln!("  not subsumed: {} >= 0 becomes {}", show(*f), show(g));
                        eprintln!("  simp {}", show_d(back.facts.simp(g), 9));
                        for x in back.facts.ineq.iter() {
                            if mentions(*x, phis) {
                                eprintln!("    have {}", show_d(back.facts.simp(*x), 9));
                            }
                        }
                        eprintln!("    {} facts", back.facts.ineq.len());
                    }
                    return None;
                }
            }
        }
        for (a, (l, h)) in head.facts.rng.iter() {
            if mentions(*a, phis) {
                let g = subst(*a, &sig, &mut memo);
                let (x, y) = back.facts.range(back.facts.simp(g));
                // the bounds of the type itself always hold
                let (sl, sh) = static_range(*a).unwrap_or((i128::MIN, i128::MAX));
                let (x, y) = (if *l <= sl { *l } else { x }, if *h >= sh { *h } else { y });
                if (x < *l && !back.facts.entails(addc(g, -*l))) || (y > *h && !back.facts.entails(sub(cst(*h), g))) {
                    if std::env::var("VLOOP").is_ok() {
                        eprintln!("  not subsumed: range {} in [{l},{h}] becomes {}", show(*a), show(g));
                    }
                    return None;
                }
            }
        }
        for (a, t) in head.facts.eqs.iter() {
            if mentions(*a, phis) || mentions(*t, phis) {
                let (g, u) = (subst(*a, &sig, &mut memo), subst(*t, &sig, &mut memo));
                if !back.facts.entails_eq(g, u) {
                    return None;
                }
            }
        }
        for f in head.facts.ne.iter() {
            if mentions(*f, phis) {
                let g = subst(*f, &sig, &mut memo);
                if !back.facts.entails_ne(g, cst(0)) {
                    return None;
                }
            }
        }
        for (a, d) in head.facts.dom.iter() {
            if mentions(*a, phis) && !back.facts.in_dom(subst(*a, &sig, &mut memo), d) {
                return None;
            }
        }
        Some(sig)
    }
    /// is the back-edge value b an instance of the head value h under the substitution?
    fn leq_v(&self, h: &V, b: &V, sig: &HashMap<T, T>, memo: &mut HashMap<T, T>, hs: &State<'tcx>, bs: &State<'tcx>) -> bool {
        let mut teq = |x: T, y: T| {
            let x2 = subst(x, sig, memo);
            x2 == y || bs.facts.simp(x2) == bs.facts.simp(y)
        };
        match (h, b) {
            (V::Top, _) => true,
            (V::I(x, _), V::I(y, _)) => teq(*x, *y),
            (V::Fl(x), V::Fl(y)) => teq(*x, *y),
            (V::Agg(x), V::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.leq_v(p, q, sig, memo, hs, bs)),
            (V::En(x), V::En(y)) => {
                if !teq(x.d, y.d) {
                    return false;
                }
                for (v, f) in &x.vars {
                    match y.vars.iter().find(|z| z.0 == *v) {
                        Some((_, g)) => {
                            if f.len() != g.len() || !f.iter().zip(g.iter()).all(|(p, q)| self.leq_v(p, q, sig, memo, hs, bs)) {
                                return false;
                            }
                        }
                        None => {
                            let (l, hh) = bs.facts.range(y.d);
                            if (*v as i128) >= l && (*v as i128) <= hh {
                                return false;
                            }
                        }
                    }
                }
                true
            }
            (V::P(x), V::P(y)) => {
                x.base == y.base
                    && x.path.len() == y.path.len()
                    && x.path.iter().zip(y.path.iter()).all(|(p, q)| match (p, q) {
                        (Pj::Ix(s), Pj::Ix(t)) => teq(*s, *t),
                        (p, q) => p == q,
                    })
                    && match (x.sl, y.sl) {
                        (None, None) => true,
                        (Some(a), Some(b)) => teq(a.0, b.0) && teq(a.1, b.1),
                        _ => false,
                    }
            }
            (V::Seq(x), V::Seq(y)) => {
                if !teq(x.len, y.len) {
                    return false;
                }
                let items = match (&x.items, &y.items) {
                    (Items::Top, _) => true,
                    (Items::Content(c, _), Items::Content(d, _)) => subst_c(*c, sig, memo) == *d,
                    (Items::Known(f), Items::Known(g)) => f.len() == g.len() && f.iter().zip(g.iter()).all(|(p, q)| self.leq_v(p, q, sig, memo, hs, bs)),
                    (Items::Summ(f), _) => match summary(y, &bs.facts) {
                        Some(g) => summ_leq(f, &g),
                        None => true,
                    },
                    _ => false,
                };
                items
                    && match (&x.last, y.last_v()) {
                        (None, _) => true,
                        (Some(p), Some(q)) => self.leq_v(p, &q, sig, memo, hs, bs),
                        (Some(_), None) => as_cst(y.len) == Some(0),
                    }
            }
            (V::It(x), V::It(y)) => {
                teq(x.off, y.off)
                    && teq(x.len, y.len)
                    && match (&x.kind, &y.kind) {
                        (ItKind::Own(a), ItKind::Own(b)) => self.leq_v(&V::Seq(Rc::new(a.clone())), &V::Seq(Rc::new(b.clone())), sig, memo, hs, bs),
                        (a, b) => a == b,
                    }
            }
            _ => false,
        }
    }
    fn generalise(&mut self, head: &State<'tcx>, back: &State<'tcx>, phis: &mut HashSet<T>, round: u32, entry: &State<'tcx>) -> State<'tcx> {
        let sig = self.solve(head, back, phis);
        let mut memo = HashMap::new();
        let nh = Cell::new(self.next_heap.get());
        let mut j = Joiner { a: head, b: back, gate: None, memo: HashMap::new(), bases: vec![], changed: vec![], new_heap: vec![], next_heap: &nh, name: "i", lost: vec![], ch: &self.const_heap, pty: &|s, p| self.ptr_ty(s, p) };
        // terms already stable under sig are kept by seeding the memo
        let pairs = self.int_pairs(head, back);
        let mut allp = vec![];
        all_pairs(head, back, &mut allp);
        for (x, y) in allp.iter() {
            let sx = subst(*x, &sig, &mut memo);
            if back.facts.simp(sx) == back.facts.simp(*y) && phis.iter().any(|p| atoms_of(*x).contains(p)) {
                let key = (head.facts.simp(*x), back.facts.simp(*y));
                j.memo.insert(key, *x);
            }
        }
        // small deltas first
        let mut ps: Vec<(T, T, IK)> = pairs.clone();
        let simp: Vec<(T, T, IK)> = ps.drain(..).map(|(x, y, k)| (head.facts.simp(x), back.facts.simp(y), k)).filter(|(x, y, _)| x != y).collect();
        let mut simp2 = simp.clone();
        simp2.sort_by_key(|(x, y, _)| {
            let d = sub(*y, *x);
            match as_cst(d) {
                Some(c) => (0, c.abs(), *x),
                None => (1, 0, *x),
            }
        });
        for (x, y, k) in &simp2 {
            j.int(*x, *y, *k);
        }
        let mut frames = vec![];
        for (x, y) in head.frames.iter().zip(back.frames.iter()) {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
            } else {
                frames.push(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| j.v(p, q)).collect::<Vec<_>>()));
            }
        }
        let mut heap = BTreeMap::new();
        for (k, (t, v)) in head.heap.iter() {
            match back.heap.get(k) {
                Some((_, w)) => {
                    heap.insert(*k, (*t, if v == w { v.clone() } else { j.v(v, w) }));
                }
                None => {
                    heap.insert(*k, (*t, v.clone()));
                }
            }
        }
        for (k, x) in back.heap.iter() {
            if !head.heap.contains_key(k) {
                // objects allocated inside the loop body: contents unknown at the head
                heap.insert(*k, (x.0, V::Top));
            }
        }
        let mut ghost = BTreeMap::new();
        for (k, v) in head.ghost.iter() {
            if let Some(w) = back.ghost.get(k) {
                ghost.insert(k.clone(), j.v(v, w));
            }
        }
        let changed = std::mem::take(&mut j.changed);
        let bases = std::mem::take(&mut j.bases);
        let newh = std::mem::take(&mut j.new_heap);
        let lost = std::mem::take(&mut j.lost);
        drop(j);
        self.next_heap.set(nh.get());
        for (id, t, v) in newh {
            heap.insert(id, (t, v));
        }
        for l in lost {
            self.unsup(l);
        }
        // facts of the head that survive
        let mut f = Facts::default();
        let mut memo = HashMap::new();
        let mut ineq = vec![];
        for g in head.facts.ineq.iter() {
            if mentions(*g, phis) {
                if phis.iter().any(|p| atoms_of(*g).contains(p) && !sig.contains_key(p)) {
                    continue;
                }
                let s = subst(*g, &sig, &mut memo);
                if back.facts.entails(s) {
                    ineq.push(*g);
                }
            } else {
                ineq.push(*g);
            }
        }
        f.ineq = Rc::new(ineq);
        let mut rng = BTreeMap::new();
        for (a, (l, h)) in head.facts.rng.iter() {
            if mentions(*a, phis) {
                if phis.iter().any(|p| atoms_of(*a).contains(p) && !sig.contains_key(p)) {
                    continue;
                }
                let s = subst(*a, &sig, &mut memo);
                let (x, y) = back.facts.range(back.facts.simp(s));
                let x = if back.facts.entails(addc(s, -*l)) { x.max(*l) } else { x };
                let y = if back.facts.entails(sub(cst(*h), s)) { y.min(*h) } else { y };
                let st = static_range(*a).unwrap_or((i128::MIN / 8, i128::MAX / 8));
                let nl = if x >= *l {
                    *l
                } else if round < 2 {
                    x
                } else {
                    st.0
                };
                let nhh = if y <= *h {
                    *h
                } else if round < 2 {
                    y
                } else {
                    st.1
                };
                rng.insert(*a, (nl, nhh));
            } else {
                rng.insert(*a, (*l, *h));
            }
        }
        f.rng = Rc::new(rng);
        let mut eqs = HashMap::new();
        for (a, t) in head.facts.eqs.iter() {
            if mentions(*a, phis) || mentions(*t, phis) {
                if phis.iter().any(|p| (atoms_of(*a).contains(p) || atoms_of(*t).contains(p)) && !sig.contains_key(p)) {
                    continue;
                }
                let (g, u) = (subst(*a, &sig, &mut memo), subst(*t, &sig, &mut memo));
                if back.facts.entails_eq(g, u) {
                    eqs.insert(*a, *t);
                }
            } else {
                eqs.insert(*a, *t);
            }
        }
        f.eqs = Rc::new(eqs);
        let mut ne = vec![];
        for g in head.facts.ne.iter() {
            if mentions(*g, phis) {
                let s = subst(*g, &sig, &mut memo);
                if back.facts.entails_ne(s, cst(0)) {
                    ne.push(*g);
                }
            } else {
                ne.push(*g);
            }
        }
        f.ne = Rc::new(ne);
        f.dom = Rc::new(head.facts.dom.iter().filter(|(a, d)| !mentions(**a, phis) || back.facts.in_dom(subst(**a, &sig, &mut memo), d)).map(|(a, d)| (*a, d.clone())).collect());
        f.touch();
        for (_, _, p) in &bases {
            phis.insert(*p);
        }
        for (r, ..) in &changed {
            for a in atoms_of(*r).iter() {
                if bases.iter().any(|b| b.2 == *a) {
                    phis.insert(*a);
                }
            }
        }
        // facts about the new symbols
        let mut cands: Vec<(T, T, T, IK)> = changed.clone();
        cands.dedup();
        for (r, x, y, k) in &cands {
            let (l1, h1) = head.facts.range(*x);
            let (l2, h2) = back.facts.range(*y);
            let (mut lo, mut hi) = (l1.min(l2), h1.max(h2));
            if round >= 1 || true {
                // widen: keep only bounds that are stable from head to back
                if l2 < l1 {
                    lo = k.lo();
                }
                if h2 > h1 {
                    hi = k.hi();
                }
            }
            lo = lo.max(k.lo());
            hi = hi.min(k.hi());
            if f.range(*r).0 < lo {
                f.assume_ge0(addc(*r, -lo));
            }
            if f.range(*r).1 > hi {
                f.assume_ge0(sub(cst(hi), *r));
            }
            // monotone?
            let d = sub(*y, *x);
            if back.facts.range(back.facts.simp(d)).0 >= 0 || back.facts.entails(d) {
                // value never below its first value
                if head.facts.entails(sub(*x, *x)) {
                    let c = sub(*r, *x);
                    if !mentions(*x, phis) {
                        f.assume_ge0(c);
                    }
                }
            } else if back.facts.entails(neg(d)) && !mentions(*x, phis) {
                f.assume_ge0(sub(*x, *r));
            }
        }
        // a bounded change per step against a counter of steps
        let mut steps: Vec<(T, T, T)> = cands.iter().filter(|(_, x, ..)| !mentions(*x, phis)).map(|(r, x, y, _)| (*r, *x, sub(*y, *x))).collect();
        if round >= 1 && round < 8 {
            let first = self.solve(head, entry, phis);
            let mut ps: Vec<T> = phis.iter().copied().collect();
            ps.sort();
            for p in ps {
                if let (Some(b), Some(e)) = (sig.get(&p), first.get(&p)) {
                    steps.push((p, *e, sub(*b, p)));
                }
            }
        }
        let ctr: Vec<(T, T)> = steps.iter().filter(|(_, _, d)| as_cst(*d) == Some(1)).map(|(r, x, _)| (*r, *x)).take(2).collect();
        for (c, c0) in &ctr {
            for (r, x, d) in &steps {
                if r == c || as_cst(*d).is_some() {
                    continue;
                }
                let (mut a, mut b) = back.facts.range(back.facts.simp(*d));
                for m in [0, 1, 4, 16, 256, 65536] {
                    if b >= 1 << 58 && back.facts.entails(addc(neg(*d), m)) {
                        b = m;
                    }
                    if a <= -(1 << 58) && back.facts.entails(addc(*d, m)) {
                        a = -m;
                    }
                }
                let n = sub(*c, *c0);
                // no more than the bounds of the type
                let (rl, rh) = f.range(*r);
                if b >= rh - rl || -a >= rh - rl {
                    continue;
                }
                if a > -(1 << 58) {
                    f.assume_ge0(sub(sub(*r, *x), scale(n, a)));
                }
                if b < 1 << 58 {
                    f.assume_ge0(sub(scale(n, b), sub(*r, *x)));
                }
            }
        }
        // lists never exceed their capacity
        {
            let mut caps = vec![];
            fn go(v: &V, out: &mut Vec<(T, i128)>, d: u32) {
                if d == 0 {
                    return;
                }
                match v {
                    V::Seq(s) => {
                        if let Some(c) = s.cap {
                            out.push((s.len, c));
                        }
                    }
                    V::Agg(f) => f.iter().for_each(|x| go(x, out, d - 1)),
                    V::En(e) => e.vars.iter().for_each(|(_, f)| f.iter().for_each(|x| go(x, out, d - 1))),
                    _ => {}
                }
            }
            for fr in &frames {
                fr.iter().for_each(|v| go(v, &mut caps, 5));
            }
            heap.values().for_each(|(_, v)| go(v, &mut caps, 5));
            for (l, c) in caps {
                if as_cst(l).is_none() {
                    f.assume_ge0(sub(cst(c), l));
                }
            }
        }
        // relations with bounds
        let mut bounds: Vec<(T, T, T)> = vec![];
        for b in bound_terms(head) {
            let mut m = HashMap::new();
            bounds.push((b, b, subst(b, &sig, &mut m)));
        }
        for (r, x, y, _) in &cands {
            bounds.push((*r, *x, *y));
        }
        bounds.sort();
        bounds.dedup();
        for (r, x, y, _) in &cands {
            for (u, ux, uy) in &bounds {
                if u == r {
                    continue;
                }
                if as_cst(*u).is_some() {
                    continue;
                }
                if std::env::var("VREL").is_ok() {
                    eprintln!("rel {} vs {}: {} {} | back {}", show(*r), show(*u), head.facts.entails(sub(*ux, *x)), back.facts.entails(sub(*uy, *y)), show_d(sub(*uy, *y), 7));
                }
                for (p, px, py) in [(sub(*u, *r), sub(*ux, *x), sub(*uy, *y)), (sub(*r, *u), sub(*x, *ux), sub(*y, *uy))] {
                    if !f.entails(p) && head.facts.entails(px) && back.facts.entails(py) {
                        // at least as far apart as at first
                        let c = as_cst(head.facts.simp(px)).filter(|c| (1..=8).contains(c) && back.facts.entails(addc(py, -*c))).unwrap_or(0);
                        f.assume_ge0(addc(p, -c));
                    }
                }
            }
        }
        let _ = entry;
        State { frames, heap: Rc::new(heap), facts: f, path: head.path.clone(), ghost: Rc::new(ghost) }
    }
    /// a strictly monotone bounded quantity at the back edge
    fn measure(&self, head: &State<'tcx>, back: &State<'tcx>, sig: &HashMap<T, T>, phis: &HashSet<T>) -> (bool, String) {
        let mut vals: Vec<(T, T)> = sig.iter().map(|(a, b)| (*a, *b)).collect();
        let mut pairs = vec![];
        all_pairs(head, back, &mut pairs);
        vals.extend(pairs.into_iter().filter(|(h, _)| mentions(*h, phis)));
        vals.sort();
        vals.dedup();
        for (h, b) in &vals {
            let d = sub(*h, *b);
            // decreasing, bounded below by 0
            if back.facts.entails(addc(d, -1)) && head.facts.entails(*h) {
                return (true, format!("{} decreases and stays >= 0", show_d(*h, 3)));
            }
        }
        let bounds = bound_terms(head);
        for (h, b) in &vals {
            let d = sub(*b, *h);
            if back.facts.entails_cases(addc(d, -1), 24) {
                if head.facts.range(*h).1 <= 1 << 33 {
                    return (true, format!("{} increases, bounded by a constant", show_d(*h, 3)));
                }
                for u in &bounds {
                    if !mentions(*u, phis) && head.facts.entails(sub(*u, *h)) {
                        return (true, format!("{} increases, bounded by {}", show_d(*h, 3), show_d(*u, 3)));
                    }
                }
            }
        }
        (false, "no strictly monotone bounded quantity found".into())
    }
    /// accumulators that are left folds over consecutive elements
    fn find_folds(&self, first: &State<'tcx>, entry: &State<'tcx>, head: &State<'tcx>, back: &State<'tcx>, sig: &HashMap<T, T>, phis: &HashSet<T>) -> (HashMap<T, T>, bool) {
        let mut out = HashMap::new();
        let mut late = false;
        // entry values of the loop symbols
        let ent = self.solve(head, entry, phis);
        let ent0 = self.solve(head, first, phis);
        for (&a, &nb) in sig {
            if nb == addc(a, 1) || !matches!(node(a), Node::Sym { .. }) {
                continue;
            }
            let Some(&init) = ent.get(&a) else { continue };
            // reads in nb
            let ats = atoms_of(nb);
            let reads: Vec<T> = ats.iter().copied().filter(|x| matches!(node(*x), Node::Read { .. }) && mentions(*x, phis)).collect();
            if reads.len() != 1 {
                continue;
            }
            let Node::Read { c, idx, .. } = node(reads[0]) else { continue };
            // idx = base + p with p -> p+1
            let mut memo = HashMap::new();
            let idx2 = subst(idx, sig, &mut memo);
            if back.facts.simp(sub(idx2, idx)) != cst(1) {
                continue;
            }
            let mut memo = HashMap::new();
            let idx0 = subst(idx, &ent, &mut memo);
            if mentions(idx0, phis) {
                continue;
            }
            let mut s = HashMap::new();
            s.insert(a, ph_acc(a));
            s.insert(reads[0], ph_elem());
            let mut memo = HashMap::new();
            let step = subst(nb, &s, &mut memo);
            if mentions(step, phis) || matches!(cnode(c), CN::App(..)) {
                continue;
            }
            let (lo, hi) = static_range(a).unwrap_or((0, i64::MAX as i128));
            // count from the first iteration, also when some were analysed separately
            let (mut init, mut idx0) = (init, idx0);
            if let Some(&i0) = ent0.get(&a) {
                let o0 = subst(idx, &ent0, &mut HashMap::new());
                if let Some(k) = as_cst(entry.facts.simp(sub(idx0, o0))) {
                    if (1..64).contains(&k) && !mentions(o0, phis) && !mentions(i0, phis) {
                        let mut t = i0;
                        for n in 0..k {
                            t = fold_step(step, t, c, addc(o0, n));
                        }
                        if entry.facts.simp(t) == entry.facts.simp(init) {
                            init = i0;
                            idx0 = o0;
                        } else {
                            late = true;
                        }
                    }
                }
            }
            let t = mkfold(step, init, c, idx0, sub(idx, idx0), lo, hi);
            out.insert(a, t);
        }
        (out, late)
    }

    fn exec_block(&mut self, info: &Rc<BodyInfo<'tcx>>, bb: BasicBlock, mut st: State<'tcx>, succ: &mut Vec<(BasicBlock, State<'tcx>)>) -> Vec<State<'tcx>> {
        self.steps += 1;
        if self.stopped || self.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            if !self.stopped {
                self.stopped = true;
                self.oblige("analysis", "analysis ends within its budget", false, "the cases to distinguish here are too many".into());
            }
            return vec![];
        }
        let block = &info.body.basic_blocks[bb];
        for s in &block.statements {
            *self.sites.last_mut().unwrap() = (bb, s.source_info.span);
            match &s.kind {
                StatementKind::Assign(b) => {
                    let (place, rv) = &**b;
                    let ty = self.place_ty(place);
                    let v = self.rvalue(&mut st, rv, ty);
                    self.write_place(&mut st, place, v);
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let v = match self.read_place(&mut st, place) {
                        V::En(e) => V::En(Rc::new(En { d: cst(variant_index.as_u32() as i128), vars: e.vars.clone() })),
                        _ => en(variant_index.as_u32(), vec![]),
                    };
                    self.write_place(&mut st, place, v);
                }
                StatementKind::Intrinsic(i) => match &**i {
                    mir::NonDivergingIntrinsic::Assume(_) => {}
                    mir::NonDivergingIntrinsic::CopyNonOverlapping(_) => self.unsup("copy_nonoverlapping".into()),
                },
                _ => {}
            }
            if st.facts.dead {
                return vec![];
            }
        }
        let term = block.terminator();
        *self.sites.last_mut().unwrap() = (bb, term.source_info.span);
        match &term.kind {
            TerminatorKind::Goto { target, .. } => succ.push((*target, st)),
            TerminatorKind::FalseEdge { real_target, .. } => succ.push((*real_target, st)),
            TerminatorKind::FalseUnwind { real_target, .. } => succ.push((*real_target, st)),
            TerminatorKind::Drop { target, .. } => succ.push((*target, st)),
            TerminatorKind::Return => return vec![st],
            TerminatorKind::Unreachable => {
                // reached only through diverging calls or exhaustive switches
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&mut st, discr);
                let V::I(t0, k) = v else {
                    let mut seen = BTreeSet::new();
                    for t in targets.all_targets() {
                        if seen.insert(*t) {
                            succ.push((*t, st.clone()));
                        }
                    }
                    return vec![];
                };
                let t = st.facts.simp(t0);
                let vals: Vec<(i128, BasicBlock)> = targets.iter().map(|(v, b)| (sext(v, k), b)).collect();
                if let Some(c) = as_cst(t) {
                    let tgt = vals.iter().find(|x| x.0 == c).map_or(targets.otherwise(), |x| x.1);
                    if as_cst(t0).is_some() {
                        Rc::make_mut(&mut st.ghost).insert("$det".into(), unit());
                    }
                    succ.push((tgt, st));
                    return vec![];
                }
                if self.trace {
                    eprintln!("SW {} {:?} {}", self.cur_fn(), bb, show(t));
                    for (p, q) in st.facts.clauses.iter() {
                        eprintln!("   CL {} | {}", show(*p), show(*q));
                    }
                }
                // interval / gcd quick filter then assume
                let mut outs: Vec<(BasicBlock, State<'tcx>, Result<i128, Vec<i128>>)> = vec![];
                let isb = st.facts.range(t).0 >= 0 && st.facts.range(t).1 <= 1 && k == BOOL;
                for (v, b) in &vals {
                    let mut s = st.clone();
                    let ok = if isb { s.facts.assume(t, *v != 0) } else { self.assume_val(&mut s, t, *v) };
                    if ok && !s.facts.dead && s.facts.propagate() {
                        outs.push((*b, s, Ok(*v)));
                    }
                }
                if !is_unreachable_block(&info.body, targets.otherwise()) {
                    let mut s = st.clone();
                    let mut ok = true;
                    if isb && vals.len() == 1 {
                        ok = s.facts.assume(t, vals[0].0 == 0);
                    } else {
                        for (v, _) in &vals {
                            let d = addc(t, -*v);
                            ok &= s.facts.assume_ne0(d);
                            if !ok {
                                break;
                            }
                        }
                    }
                    if ok && !s.facts.dead && s.facts.propagate() {
                        outs.push((targets.otherwise(), s, Err(vals.iter().map(|x| x.0).collect())));
                    }
                }
                let n = outs.len();
                for (b, mut s, r) in outs {
                    if n > 1 {
                        s.push_path(t, r);
                        s.set_pre((st.facts.ineq.clone(), st.facts.ne.clone()));
                    }
                    succ.push((b, s));
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                if matches!(**msg, mir::AssertKind::MisalignedPointerDereference { .. } | mir::AssertKind::NullPointerDereference) {
                    // inserted for the contents of a box; no raw pointer is used otherwise
                    succ.push((*target, st));
                    return vec![];
                }
                let c = self.operand(&mut st, cond);
                let what = assert_name(msg);
                match c {
                    V::I(t, _) => {
                        let tr = st.facts.truth(t);
                        let ok = tr == Some(*expected);
                        let why = if ok { String::new() } else { format!("cannot show {}{}", if *expected { "" } else { "not " }, show(st.facts.simp(t))) };
                        self.oblige("panic", &what, ok, why);
                        if !ok {
                            if std::env::var("VFACTS").is_ok() {
                                dump_facts(&st.facts);
                            }
                        }
                        st.facts.assume(t, *expected);
                    }
                    _ => self.oblige("panic", &what, false, "unknown condition".into()),
                }
                if !st.facts.dead {
                    succ.push((*target, st));
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(func);
                let mut avals = vec![];
                let mut atys = vec![];
                for a in args.iter() {
                    avals.push(self.operand(&mut st, &a.node));
                    atys.push(self.op_ty(&a.node));
                }
                let dest_ty = self.place_ty(destination);
                let res = match fty.kind() {
                    ty::FnDef(d, ga) => self.call(st, *d, ga.skip_binder(), avals, atys, dest_ty),
                    _ => {
                        self.unsup("call through function pointer".into());
                        self.havoc_call(st, &avals, &atys, dest_ty)
                    }
                };
                if let Some(t) = target {
                    for (mut s, v) in res {
                        if s.facts.dead {
                            continue;
                        }
                        self.write_place(&mut s, destination, v);
                        succ.push((*t, s));
                    }
                }
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => {}
            o => self.unsup(format!("terminator {o:?}")),
        }
        vec![]
    }
    pub fn assume_val(&mut self, s: &mut State<'tcx>, t: T, v: i128) -> bool {
        s.facts.assume_eq0(addc(t, -v))
    }
    pub fn call(&mut self, st: State<'tcx>, d: DefId, ga: ty::GenericArgsRef<'tcx>, args: Vec<V>, atys: Vec<Ty<'tcx>>, ret: Ty<'tcx>) -> Vec<(State<'tcx>, V)> {
        let tcx = self.tcx;
        let ga = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(ga));
        let inst = match Instance::try_resolve(tcx, self.env, d, ga) {
            Ok(Some(i)) => i,
            _ => {
                self.unsup(format!("unresolved call {}", tcx.def_path_str(d)));
                return self.havoc_call(st, &args, &atys, ret);
            }
        };
        crate::models::dispatch(self, st, d, ga, inst, args, atys, ret)
    }
    /// unknown function: result unknown, everything reachable through &mut is unknown
    pub fn havoc_call(&mut self, mut st: State<'tcx>, args: &[V], atys: &[Ty<'tcx>], ret: Ty<'tcx>) -> Vec<(State<'tcx>, V)> {
        for (i, a) in args.iter().enumerate() {
            let mt = atys.get(i).map_or(true, |t| may_mutate(*t));
            if mt {
                self.havoc_through(&mut st, a, 4);
            }
        }
        let v = self.materialize(&mut st, ret, "r");
        vec![(st, v)]
    }
    pub fn havoc_through(&mut self, st: &mut State<'tcx>, v: &V, d: u32) {
        if d == 0 {
            return;
        }
        match v {
            V::P(p) if p.mt => {
                if p.sl.is_some() {
                    // slice: contents unknown, length kept
                    if let V::Seq(s) = self.read(st, &Ptr { sl: None, ..(**p).clone() }) {
                        let items = match &s.items {
                            Items::Content(_, k) => Items::Content(fresh_content("h"), *k),
                            Items::Known(f) if f.iter().all(|x| matches!(x, V::I(..))) && !f.is_empty() => {
                                let V::I(_, k) = &f[0] else { unreachable!() };
                                Items::Content(fresh_content("h"), *k)
                            }
                            _ => Items::Top,
                        };
                        self.write(st, &Ptr { sl: None, ..(**p).clone() }, V::Seq(Rc::new(Seq { items, last: None, ..(*s).clone() })));
                    }
                    return;
                }
                let old = self.read(st, p);
                self.havoc_through(st, &old, d - 1);
                let nv = match old {
                    V::Seq(s) if s.cap.is_none() && self.ptr_ty(st, p).is_some_and(|t| t.is_array()) => V::Seq(Rc::new(Seq { len: s.len, items: match &s.items { Items::Content(_, k) => Items::Content(fresh_content("h"), *k), _ => Items::Top }, cap: None, last: None })),
                    _ => V::Top,
                };
                self.write(st, p, nv);
            }
            V::Agg(f) => {
                for x in f.iter() {
                    self.havoc_through(st, x, d - 1);
                }
            }
            V::En(e) => {
                for (_, f) in &e.vars {
                    for x in f.iter() {
                        self.havoc_through(st, x, d - 1);
                    }
                }
            }
            _ => {}
        }
    }
    pub fn opaque(&mut self, st: State<'tcx>, inst: Instance<'tcx>, args: Vec<V>, ret: Option<Ty<'tcx>>) -> Vec<(State<'tcx>, V)> {
        let tcx = self.tcx;
        let sig = inst.ty(tcx, self.env);
        let sig = match sig.kind() {
            ty::FnDef(..) => tcx.normalize_erasing_late_bound_regions(self.env, sig.fn_sig(tcx)),
            _ => {
                let r = ret.unwrap_or(tcx.types.unit);
                return self.havoc_call(st, &args, &[], r);
            }
        };
        let atys: Vec<Ty<'tcx>> = sig.inputs().to_vec();
        let r = ret.unwrap_or(sig.output());
        let name = tcx.def_path_str(inst.def_id());
        *self.opaque_calls.entry(name).or_insert(0) += 1;
        self.havoc_call(st, &args, &atys, r)
    }
}

pub fn dump_facts(f: &Facts) {
    for (k, v) in f.eqs.iter() {
        eprintln!("     {} := {}", show(*k), show(*v));
    }
    for (k, v) in f.rng.iter() {
        eprintln!("     {} in [{},{}]", show(*k), v.0, v.1);
    }
    for k in f.ineq.iter() {
        eprintln!("     {} >= 0", show(*k));
    }
    for k in f.ne.iter() {
        eprintln!("     {} != 0", show(*k));
    }
}
fn fact_mentions(f: &Facts, p: T) -> bool {
    f.ineq.iter().any(|x| atoms_of(*x).contains(&p)) || f.rng.keys().any(|x| atoms_of(*x).contains(&p)) || f.eqs.iter().any(|(a, b)| atoms_of(*a).contains(&p) || atoms_of(*b).contains(&p)) || f.ne.iter().any(|x| atoms_of(*x).contains(&p))
}
/// the path below `top` with symbols replaced; shared nodes stay shared
fn subst_path(p: &Option<Rc<PathNode>>, top: &Option<Rc<PathNode>>, m: &HashMap<T, T>, memo: &mut HashMap<T, T>, pm: &mut HashMap<u64, Rc<PathNode>>) -> Option<Rc<PathNode>> {
    let mut todo = vec![];
    let mut cur = p.clone();
    while let Some(n) = cur {
        if top.as_ref().is_some_and(|t| Rc::ptr_eq(&n, t)) {
            cur = Some(n);
            break;
        }
        if let Some(r) = pm.get(&n.id) {
            cur = Some(r.clone());
            break;
        }
        cur = n.parent.clone();
        todo.push(n);
    }
    for n in todo.into_iter().rev() {
        let pre = (Rc::new(n.pre.0.iter().map(|t| subst(*t, m, memo)).collect::<Vec<T>>()), Rc::new(n.pre.1.iter().map(|t| subst(*t, m, memo)).collect::<Vec<T>>()));
        let r = Rc::new(PathNode { t: subst(n.t, m, memo), val: n.val.clone(), parent: cur.clone(), depth: n.depth, id: n.id, pre });
        pm.insert(n.id, r.clone());
        cur = Some(r);
    }
    cur
}
pub fn subst_state(s: &mut State<'_>, m: &HashMap<T, T>, memo: &mut HashMap<T, T>) {
    for f in s.frames.iter_mut() {
        let n: Vec<V> = f.iter().map(|v| subst_v(v, m, memo)).collect();
        if n != **f {
            *f = Rc::new(n);
        }
    }
    let mut heap = (*s.heap).clone();
    let mut ch = false;
    for (_, (_, v)) in heap.iter_mut() {
        let n = subst_v(v, m, memo);
        if n != *v {
            *v = n;
            ch = true;
        }
    }
    if ch {
        s.heap = Rc::new(heap);
    }
    let g: BTreeMap<String, V> = s.ghost.iter().map(|(k, v)| (k.clone(), subst_v(v, m, memo))).collect();
    s.ghost = Rc::new(g);
    let mut f = Facts { dead: s.facts.dead, ..Default::default() };
    f.clauses = Rc::new(s.facts.clauses.iter().map(|(p, q)| (subst(*p, m, memo), subst(*q, m, memo))).collect());
    f.ineq = Rc::new(s.facts.ineq.iter().map(|t| subst(*t, m, memo)).collect());
    f.ne = Rc::new(s.facts.ne.iter().map(|t| subst(*t, m, memo)).collect());
    f.dom = Rc::new(s.facts.dom.iter().map(|(t, d)| (subst(*t, m, memo), d.clone())).filter(|(t, _)| is_atom(*t)).collect());
    let mut rng = BTreeMap::new();
    for (k, v) in s.facts.rng.iter() {
        let n = subst(*k, m, memo);
        if as_cst(n).is_none() {
            rng.insert(n, *v);
        }
    }
    f.rng = Rc::new(rng);
    f.eqs = Rc::new(s.facts.eqs.iter().filter(|(k, _)| m.get(k).is_none_or(|n| matches!(node(*n), Node::Sym { .. }))).map(|(k, v)| (subst(*k, m, memo), subst(*v, m, memo))).filter(|(k, v)| k != v && is_atom(*k) && !atoms_of(*v).contains(k)).collect());
    s.facts = f;
}
thread_local! {
    static PH: std::cell::RefCell<HashMap<(i128, i128, u8), T>> = std::cell::RefCell::new(HashMap::new());
}
fn ph_acc(a: T) -> T {
    let (lo, hi) = static_range(a).unwrap_or((0, i64::MAX as i128));
    PH.with(|p| *p.borrow_mut().entry((lo, hi, 0)).or_insert_with(|| fresh("ACC", lo, hi)))
}
fn ph_elem() -> T {
    PH.with(|p| *p.borrow_mut().entry((0, 255, 1)).or_insert_with(|| fresh("ELEM", 0, 255)))
}

/// every pair of corresponding integer terms
fn all_pairs(a: &State<'_>, b: &State<'_>, out: &mut Vec<(T, T)>) {
    fn go(x: &V, y: &V, out: &mut Vec<(T, T)>, d: u32) {
        if d == 0 {
            return;
        }
        match (x, y) {
            (V::I(p, _), V::I(q, _)) => out.push((*p, *q)),
            (V::Fl(p), V::Fl(q)) => {
                if let (Node::FInt(m), Node::FInt(n)) = (node(*p), node(*q)) {
                    out.push((m, n));
                }
            }
            (V::Agg(p), V::Agg(q)) => {
                for (m, n) in p.iter().zip(q.iter()) {
                    go(m, n, out, d - 1);
                }
            }
            (V::En(p), V::En(q)) => {
                out.push((p.d, q.d));
                for (v, f) in &p.vars {
                    if let Some((_, g)) = q.vars.iter().find(|z| z.0 == *v) {
                        for (m, n) in f.iter().zip(g.iter()) {
                            go(m, n, out, d - 1);
                        }
                    }
                }
            }
            (V::Seq(p), V::Seq(q)) => {
                out.push((p.len, q.len));
                if let (Items::Known(m), Items::Known(n)) = (&p.items, &q.items) {
                    for (a, b) in m.iter().zip(n.iter()) {
                        go(a, b, out, d - 1);
                    }
                }
                if let (Some(m), Some(n)) = (p.last_v(), q.last_v()) {
                    go(&m, &n, out, d - 1);
                }
            }
            (V::P(p), V::P(q)) => {
                if let (Some(m), Some(n)) = (p.sl, q.sl) {
                    out.push((m.0, n.0));
                    out.push((m.1, n.1));
                }
                for (m, n) in p.path.iter().zip(q.path.iter()) {
                    if let (Pj::Ix(s), Pj::Ix(t)) = (m, n) {
                        out.push((*s, *t));
                    }
                }
            }
            (V::It(p), V::It(q)) => {
                out.push((p.off, q.off));
                out.push((p.len, q.len));
            }
            _ => {}
        }
    }
    for (x, y) in a.frames.iter().zip(b.frames.iter()) {
        for (p, q) in x.iter().zip(y.iter()) {
            go(p, q, out, 8);
        }
    }
    for (k, (_, v)) in a.heap.iter() {
        if let Some((_, w)) = b.heap.get(k) {
            go(v, w, out, 8);
        }
    }
    for (k, v) in a.ghost.iter() {
        if let Some(w) = b.ghost.get(k) {
            go(v, w, out, 8);
        }
    }
}
/// lengths and other natural upper bounds present in the state
pub fn bound_terms(s: &State<'_>) -> Vec<T> {
    fn go(s: &State<'_>, v: &V, out: &mut BTreeSet<T>, d: u32) {
        if d == 0 {
            return;
        }
        match v {
            V::P(p) => {
                if let Some((o, l)) = p.sl {
                    out.insert(add(o, l));
                    out.insert(l);
                } else if let Some(w) = peek(s, &BTreeMap::new(), p) {
                    go(s, &w, out, d - 1);
                }
            }
            V::Seq(q) => {
                out.insert(q.len);
            }
            V::Agg(f) => f.iter().for_each(|x| go(s, x, out, d - 1)),
            V::En(e) => e.vars.iter().for_each(|(_, f)| f.iter().for_each(|x| go(s, x, out, d - 1))),
            V::It(i) => {
                out.insert(add(i.off, i.len));
            }
            V::I(t, k) if *k == USIZE => {
                out.insert(*t);
            }
            _ => {}
        }
    }
    let mut out = BTreeSet::new();
    if let Some(f) = s.frames.last() {
        for v in f.iter() {
            go(s, v, &mut out, 4);
        }
    }
    let v: Vec<T> = out.into_iter().filter(|t| as_cst(*t).is_none()).collect();
    if v.len() > 24 { v[..24].to_vec() } else { v }
}
/// lengths of the slices held in the current frame
fn slice_lens(s: &State<'_>) -> BTreeSet<T> {
    let mut out = BTreeSet::new();
    if let Some(f) = s.frames.last() {
        for v in f.iter() {
            if let V::P(p) = v {
                if let Some((_, l)) = p.sl {
                    let raw = l;
                    let l = s.facts.simp(l);
                    if as_cst(raw).is_none() && lin(raw).1.len() <= 6 && lin(raw).1.iter().any(|x| is_len(x.0)) {
                        out.insert(raw);
                    } else if as_cst(l).is_none() && lin(l).1.iter().all(|x| matches!(node(x.0), Node::Sym { .. })) {
                        out.insert(l);
                    }
                }
            }
        }
    }
    out
}
fn join_changed(f: &mut Facts, a: &Facts, b: &Facts, changed: &[(T, T, T, IK)], ends: &[T]) {
    for (r, x, y, k) in changed {
        let (l1, h1) = a.range(*x);
        let (l2, h2) = b.range(*y);
        let lo = l1.min(l2).max(k.lo());
        let hi = h1.max(h2).min(k.hi());
        let (rl, rh) = f.range(*r);
        let one = is_atom(*r);
        if rl < lo && (one || lo > k.lo()) {
            f.assume_ge0(addc(*r, -lo));
        }
        if rh > hi && (one || hi < k.hi()) {
            f.assume_ge0(sub(cst(hi), *r));
        }
        // one side bounds the other
        if matches!(node(*r), Node::Sym { .. }) {
            for (f1, p, q) in [(a, *x, *y), (b, *y, *x)] {
                if f1.entails_d(sub(q, p), 0) {
                    f.assume_ge0(sub(q, *r));
                } else if f1.entails_d(sub(p, q), 0) {
                    f.assume_ge0(sub(*r, q));
                }
            }
        }
    }
    // relations with length symbols
    let mut big: Vec<&(T, T, T, IK)> = changed.iter().filter(|c| c.3 == USIZE).collect();
    if changed.len() > 24 && big.len() > 12 {
        big.retain(|c| f.range(c.0).1 > 1 << 32);
        big.truncate(8);
    }
    if !big.is_empty() {
        let mut lens: BTreeSet<T> = BTreeSet::new();
        for q in [a, b] {
            for t in q.ineq.iter() {
                for (at, _) in lin(*t).1.iter() {
                    if is_len(*at) {
                        lens.insert(*at);
                    }
                }
            }
        }
        if a.rng.len() + b.rng.len() < 400 {
            for (at, (l1, _)) in a.rng.iter() {
                if is_len(*at) && *l1 > 1 && b.range(*at).0 != *l1 {
                    lens.insert(*at);
                }
            }
        }
        let n = lens.len();
        if n > 4 {
            lens.clear();
        }
        lens.extend(ends.iter().copied());
        if std::env::var("VREL").is_ok() { eprintln!("lens {} big {} : {}", lens.len(), big.len(), lens.iter().map(|t| show(*t)).collect::<Vec<_>>().join(" ; ")); }
        let dd = if big.len() <= 4 { 2 } else if big.len() <= 10 { 1 } else { 0 };
        if lens.len() <= 6 {
            for (r, x, y, _) in big {
                if std::env::var("VREL").is_ok() {
                    for u in &lens {
                        eprintln!("jrel {} <= {}: {} {} {} | {} | {}", show(*r), show(*u), f.entails_d(sub(*u, *r), 0), a.entails_d(sub(*u, *x), dd), b.entails_d(sub(*u, *y), dd), show_d(*x, 5), show_d(*y, 5));
                    }
                }
                if f.range(*r).0 < 1 && a.entails_d(addc(*x, -1), dd) && b.entails_d(addc(*y, -1), dd) {
                    f.assume_ge0(addc(*r, -1));
                }
                // stays above a loop variable
                let mut syms: BTreeSet<T> = BTreeSet::new();
                part_syms(*x, &mut syms, 4);
                part_syms(*y, &mut syms, 4);
                syms.retain(|q| f.range(*q).1 > 1 << 32);
                for s in syms.into_iter().take(3) {
                    for k in [-1, 0] {
                        let p = addc(sub(*r, s), k);
                        if f.entails_d(p, 0) {
                            break;
                        }
                        if a.entails_d(addc(sub(*x, s), k), dd) && b.entails_d(addc(sub(*y, s), k), dd) {
                            f.assume_ge0(p);
                            break;
                        }
                    }
                }
                for u in &lens {
                    let p = sub(*u, *r);
                    let both = |c: i128| a.entails_d(addc(sub(*u, *x), -c), dd) && b.entails_d(addc(sub(*u, *y), -c), dd);
                    if !f.entails_d(p, 0) && both(0) {
                        let c = if both(2) { 2 } else if both(1) { 1 } else { 0 };
                        f.assume_ge0(addc(p, -c));
                    }
                }
            }
        }
    }
}
/// symbols that occur in t as summands, in some case
fn part_syms(t: T, out: &mut BTreeSet<T>, d: u32) {
    if d == 0 {
        return;
    }
    for (a, k) in lin(t).1.iter() {
        match node(*a) {
            Node::Sym { .. } if *k == 1 && !is_len(*a) => {
                out.insert(*a);
            }
            Node::Ite(_, x, y) if *k == 1 => {
                part_syms(x, out, d - 1);
                part_syms(y, out, d - 1);
            }
            _ => {}
        }
    }
}
/// a quantity with at most sixteen values that decides the first branch taken in a loop body
fn split_var<'tcx>(s: &State<'tcx>, r: &RegionOut<'tcx>) -> Option<(T, Vec<i128>)> {
    let mut t = None;
    for q in r.exits.iter().map(|x| &x.1).chain(r.backs.iter()) {
        let mut cur = q.path.clone();
        let mut below = None;
        let mut hit = s.path.is_none();
        while let Some(n) = cur {
            if s.path.as_ref().is_some_and(|p| Rc::ptr_eq(p, &n)) {
                hit = true;
                break;
            }
            cur = n.parent.clone();
            below = Some(n);
        }
        if hit {
            if let Some(n) = below {
                t = Some(n.t);
                break;
            }
        }
    }
    let t = s.facts.simp(t?);
    if std::env::var("VLOOP").is_ok() {
        eprintln!("first branch {}", show(t));
    }
    for a in atoms_of(t).iter() {
        let Some(vs) = s.facts.vals(*a, 17) else { continue };
        if vs.len() < 2 || vs.len() > 16 {
            continue;
        }
        let all = vs.iter().all(|v| {
            let mut f = s.facts.clone();
            !f.assume_eq0(addc(*a, -*v)) || f.dead || as_cst(f.simp(t)).is_some() || f.bool_val(f.simp(t)).is_some()
        });
        if all && !is_bool(*a) && matches!(node(*a), Node::Read { .. } | Node::Field { .. }) {
            return Some((*a, vs));
        }
    }
    None
}
/// the branch conditions taken since `top`
fn lits_below(p: &Option<Rc<PathNode>>, top: &Option<Rc<PathNode>>) -> Vec<T> {
    let mut out = vec![];
    let mut cur = p.clone();
    while let Some(n) = cur {
        if let Some(t) = top {
            if Rc::ptr_eq(&n, t) {
                break;
            }
        }
        if let Some(c) = n.val.cond(n.t) {
            out.push(c);
        }
        cur = n.parent.clone();
        if out.len() > 12 {
            return vec![];
        }
    }
    out
}
/// conjuncts of a boolean term
fn conjuncts(t: T, out: &mut Vec<T>) {
    match node(t) {
        Node::Bin { op: B::And, a, b } => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        _ => out.push(t),
    }
}
fn conj(v: &[T]) -> T {
    let mut w = vec![];
    for x in v {
        conjuncts(*x, &mut w);
    }
    w.sort();
    w.dedup();
    let mut it = w.into_iter().rev();
    let mut acc = it.next().unwrap_or(cst(1));
    for x in it {
        acc = if acc == x { acc } else { mk(Node::Bin { op: B::And, a: x, b: acc }) };
    }
    acc
}
/// the condition that one of two lists of literals holds, when it is short
fn disj(a: &[T], b: &[T]) -> Option<T> {
    if a.is_empty() || b.is_empty() || a.len() > 8 || b.len() > 8 {
        return None;
    }
    let mut a: Vec<T> = a.to_vec();
    let mut b: Vec<T> = b.to_vec();
    let shared: Vec<T> = a.iter().copied().filter(|x| b.contains(x)).collect();
    if !shared.is_empty() {
        return None;
    }
    for _ in 0..2 {
        // not x or (x and rest) = not x or rest
        if a.len() == 1 {
            let mut c = vec![];
            conjuncts(not(a[0]), &mut c);
            let mut d = vec![];
            for x in &b {
                conjuncts(*x, &mut d);
            }
            if c.iter().all(|x| d.contains(x)) {
                d.retain(|x| !c.contains(x));
                if d.is_empty() {
                    return None;
                }
                b = d;
            }
        }
        std::mem::swap(&mut a, &mut b);
    }
    if a.len() != 1 && b.len() != 1 || a.len() + b.len() > 8 {
        return None;
    }
    let (na, nb) = (not(conj(&a)), not(conj(&b)));
    let mut c = vec![];
    conjuncts(na, &mut c);
    conjuncts(nb, &mut c);
    if c.len() > 10 {
        return None;
    }
    Some(not(conj(&[na, nb])))
}
/// states forked by `spec::split` are never merged
fn split_key(s: &State<'_>) -> String {
    match s.ghost.get("$split") {
        Some(V::Agg(v)) => v.iter().map(|x| if let V::I(t, _) = x { format!("{},", as_cst(*t).unwrap_or(-1)) } else { String::new() }).collect(),
        _ => String::new(),
    }
}
fn groups_ok<X>(g: &BTreeMap<(String, String), X>, cap: usize) -> bool {
    let mut n = 0;
    let mut last: Option<&String> = None;
    for (a, _) in g.keys() {
        if last == Some(a) {
            n += 1;
        } else {
            n = 1;
            last = Some(a);
        }
        if n > cap {
            return false;
        }
    }
    true
}
pub fn is_len(t: T) -> bool {
    match node(t) {
        Node::Sym { id, .. } => TM.with(|m| m.borrow().names.get(&id).is_some_and(|n| n.starts_with("len"))),
        _ => false,
    }
}
fn prepass<'tcx>(j: &mut Joiner<'_, 'tcx>, a: &State<'tcx>, b: &State<'tcx>) {
    let mut out = vec![];
    for (x, y) in a.frames.iter().zip(b.frames.iter()) {
        if !Rc::ptr_eq(x, y) {
            for (p, q) in x.iter().zip(y.iter()) {
                j.collect_pairs(p, q, &mut out, 6);
            }
        }
    }
    let mut v: Vec<(T, T, IK)> = out.into_iter().map(|(x, y, k)| (a.facts.simp(x), b.facts.simp(y), k)).filter(|z| z.0 != z.1).collect();
    v.sort_by_key(|(x, y, _)| match as_cst(sub(*y, *x)) {
        Some(c) => (0, c.abs(), *x),
        None => (1, 0, *x),
    });
    for (x, y, k) in v {
        j.int(x, y, k);
    }
}
/// is summary g covered by summary f?
pub fn summ_leq(f: &V, g: &V) -> bool {
    match (f, g) {
        (V::Top, _) => true,
        (V::I(x, _), V::I(y, _)) => match (static_range(*x), static_range(*y)) {
            (Some(a), Some(b)) => a.0 <= b.0 && a.1 >= b.1,
            _ => false,
        },
        (V::Fl(x), V::Fl(y)) => x == y || !matches!(node(*x), Node::FConst(_)),
        (V::Agg(x), V::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| summ_leq(p, q)),
        (V::En(x), V::En(y)) => {
            let (Some(a), Some(b)) = (static_range(x.d), static_range(y.d)) else { return false };
            if a.0 > b.0 || a.1 < b.1 {
                return false;
            }
            y.vars.iter().all(|(v, q)| match x.vars.iter().find(|z| z.0 == *v) {
                Some((_, p)) => p.iter().zip(q.iter()).all(|(p, q)| summ_leq(p, q)),
                None => true,
            }) && x.vars.iter().all(|(v, _)| y.vars.iter().any(|z| z.0 == *v) || (*v as i128) < b.0 || (*v as i128) > b.1)
        }
        (V::P(x), V::P(y)) => {
            x.base == y.base
                && x.path == y.path
                && match (x.sl, y.sl) {
                    (None, None) => true,
                    (Some(a), Some(b)) => {
                        let r = |t: T| static_range(t).unwrap_or((0, i64::MAX as i128));
                        let c = |p: T, q: T| r(p).0 <= r(q).0 && r(p).1 >= r(q).1;
                        c(a.0, b.0) && c(a.1, b.1)
                    }
                    _ => false,
                }
        }
        (V::Seq(x), V::Seq(y)) => {
            let (Some(a), Some(b)) = (static_range(x.len), static_range(y.len)) else { return false };
            if a.0 > b.0 || a.1 < b.1 {
                return false;
            }
            match (&x.items, &y.items) {
                (Items::Top, _) => true,
                (Items::Content(..), Items::Content(..)) => true,
                (Items::Summ(p), Items::Summ(q)) => summ_leq(p, q),
                (Items::Summ(p), _) => match summary(y, &Facts::default()) {
                    Some(q) => summ_leq(p, &q),
                    None => true,
                },
                _ => false,
            }
        }
        _ => false,
    }
}
fn may_mutate(t: Ty<'_>) -> bool {
    match t.kind() {
        ty::Ref(_, inner, m) => m.is_mut() || may_mutate(*inner),
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Slice(_) | ty::Array(..) => false,
        _ => true,
    }
}
pub fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    match t.kind() {
        ty::Ref(_, x, _) | ty::RawPtr(x, _) => Some(*x),
        ty::Adt(d, a) if d.is_box() => Some(a.type_at(0)),
        ty::Pat(..) => None,
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Special {
    None,
    Vec,
    Str,
    ArrayVec,
    Box,
    SliceIter,
    Opaque,
}
pub fn sext(v: u128, k: IK) -> i128 {
    if k.signed {
        if k.bits >= 127 {
            return v as i128;
        }
        let m = 1u128 << k.bits;
        let v = v & (m - 1);
        if v >= m / 2 { v as i128 - m as i128 } else { v as i128 }
    } else {
        v as i128
    }
}
pub fn fconst(d: f64) -> T {
    if d == d.trunc() && d.abs() <= (1u64 << 53) as f64 && !(d == 0.0 && d.is_sign_negative()) {
        return mk(Node::FInt(cst(d as i128)));
    }
    mk(Node::FConst(d.to_bits()))
}
pub fn fconst_of(t: T) -> Option<f64> {
    match node(t) {
        Node::FConst(b) => Some(f64::from_bits(b)),
        Node::FInt(x) => as_cst(x).map(|c| c as f64),
        _ => None,
    }
}
pub fn mk_fint(t: T) -> T {
    mk(Node::FInt(t))
}
pub fn fint(t: T) -> Option<T> {
    match node(t) {
        Node::FInt(x) => Some(x),
        _ => None,
    }
}
pub fn fop(f: &str, args: &[T]) -> T {
    mk(Node::FOp(f.into(), args.into()))
}
pub fn shape(v: &V, f: &Facts, d: u32) -> String {
    if d == 0 {
        return "_".into();
    }
    match v {
        V::I(t, k) if *k == BOOL => match f.bool_val(*t) {
            Some(true) => "t".into(),
            Some(false) => "f".into(),
            None => "_".into(),
        },
        V::En(e) => {
            let (l, h) = f.range(f.simp(e.d));
            if l != h {
                return "?".into();
            }
            let mut s = format!("{l}");
            if d > 1 {
                if let Some((_, fs)) = e.vars.iter().find(|x| x.0 as i128 == l) {
                    let subs: Vec<String> = fs.iter().map(|x| shape(x, f, d - 1)).collect();
                    if subs.iter().any(|x| x != "_") {
                        s += &format!("({})", subs.join(","));
                    }
                }
            }
            s
        }
        V::Agg(fs) => {
            let subs: Vec<String> = fs.iter().map(|x| shape(x, f, d - 1)).collect();
            if subs.iter().all(|x| x == "_") { "_".into() } else { format!("{{{}}}", subs.join(",")) }
        }
        V::Top => "_".into(),
        _ => "_".into(),
    }
}
pub fn short(v: &V) -> String {
    fn go(v: &V, d: u32) -> String {
        if d == 0 {
            return "…".into();
        }
        match v {
            V::Top => "⊤".into(),
            V::I(t, _) => show_d(*t, 4),
            V::Fl(t) => show_d(*t, 4),
            V::Agg(f) => format!("{{{}}}", f.iter().map(|x| go(x, d - 1)).collect::<Vec<_>>().join(", ")),
            V::En(e) => format!("<{}: {}>", show_d(e.d, 3), e.vars.iter().map(|(v, f)| format!("{v}({})", f.iter().map(|x| go(x, d - 1)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("|")),
            V::P(p) => format!("&{:?}{:?}{}", p.base, p.path, p.sl.map_or(String::new(), |s| format!("[{}; {}]", show_d(s.0, 4), show_d(s.1, 4)))),
            V::Seq(s) => format!(
                "seq(len {}, {})",
                show_d(s.len, 4),
                match &s.items {
                    Items::Known(f) => format!("[{}]", f.iter().take(6).map(|x| go(x, d - 1)).collect::<Vec<_>>().join(", ")),
                    Items::Content(c, _) => show_c(*c),
                    Items::Summ(x) => format!("each {}", go(x, d - 1)),
                    Items::Top => "⊤".into(),
                }
            ),
            V::It(i) => format!("iter({}; {})", show_d(i.off, 4), show_d(i.len, 4)),
        }
    }
    go(v, 5)
}
pub fn assert_name(m: &mir::AssertKind<Operand<'_>>) -> String {
    use mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
        OverflowNeg(_) => "negation overflow".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder by zero".into(),
        _ => "runtime check".into(),
    }
}
fn is_unreachable_block(body: &Body<'_>, b: BasicBlock) -> bool {
    let bl = &body.basic_blocks[b];
    bl.statements.is_empty() && matches!(bl.terminator().kind, TerminatorKind::Unreachable)
}
fn is_dead_end(body: &Body<'_>, b: BasicBlock) -> bool {
    is_unreachable_block(body, b)
}
pub fn normal_succs(bl: &mir::BasicBlockData<'_>) -> Vec<BasicBlock> {
    match &bl.terminator().kind {
        TerminatorKind::Goto { target, .. } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets().to_vec(),
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![*real_target],
        _ => vec![],
    }
}
/// live locals at block entry; locals whose address is taken are always live
fn liveness<'tcx>(body: &Body<'tcx>, order: &[BasicBlock]) -> Vec<DenseBitSet<mir::Local>> {
    use rustc_middle::mir::visit::{PlaceContext, Visitor};
    let n = body.local_decls.len();
    let mut always = DenseBitSet::new_empty(n);
    struct Addr<'a>(&'a mut DenseBitSet<mir::Local>);
    impl<'a, 'tcx> Visitor<'tcx> for Addr<'a> {
        fn visit_rvalue(&mut self, rv: &Rvalue<'tcx>, l: mir::Location) {
            match rv {
                Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                    if !p.is_indirect() {
                        self.0.insert(p.local);
                    }
                }
                _ => {}
            }
            self.super_rvalue(rv, l);
        }
    }
    Addr(&mut always).visit_body(body);
    // gen/kill per block, backwards
    struct UseDef<'a> {
        gen_: &'a mut DenseBitSet<mir::Local>,
        kill: &'a mut DenseBitSet<mir::Local>,
    }
    let mut gens = vec![];
    let mut kills = vec![];
    for (_, bl) in body.basic_blocks.iter_enumerated() {
        let mut g = DenseBitSet::new_empty(n);
        let mut k = DenseBitSet::new_empty(n);
        // forward walk: use before def
        struct Walk<'a, 'b> {
            u: &'b mut UseDef<'a>,
        }
        impl<'a, 'b, 'tcx> Visitor<'tcx> for Walk<'a, 'b> {
            fn visit_local(&mut self, l: mir::Local, ctx: PlaceContext, _: mir::Location) {
                use rustc_middle::mir::visit::MutatingUseContext as M;
                match ctx {
                    PlaceContext::NonUse(_) => {}
                    PlaceContext::MutatingUse(M::Store) | PlaceContext::MutatingUse(M::Call) => {
                        // whole-local assignment (projections are visited with a Projection context)
                        self.u.kill.insert(l);
                    }
                    _ => {
                        if !self.u.kill.contains(l) {
                            self.u.gen_.insert(l);
                        }
                    }
                }
            }
            fn visit_place(&mut self, p: &Place<'tcx>, ctx: PlaceContext, loc: mir::Location) {
                for el in p.projection.iter() {
                    if let ProjectionElem::Index(l) = el {
                        if !self.u.kill.contains(l) {
                            self.u.gen_.insert(l);
                        }
                    }
                }
                if p.projection.is_empty() {
                    self.visit_local(p.local, ctx, loc);
                } else if !self.u.kill.contains(p.local) {
                    self.u.gen_.insert(p.local);
                }
            }
            fn visit_assign(&mut self, p: &Place<'tcx>, rv: &Rvalue<'tcx>, loc: mir::Location) {
                self.visit_rvalue(rv, loc);
                self.visit_place(p, PlaceContext::MutatingUse(rustc_middle::mir::visit::MutatingUseContext::Store), loc);
            }
            fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, loc: mir::Location) {
                if let TerminatorKind::Call { func, args, destination, .. } = &t.kind {
                    self.visit_operand(func, loc);
                    for a in args.iter() {
                        self.visit_operand(&a.node, loc);
                    }
                    self.visit_place(destination, PlaceContext::MutatingUse(rustc_middle::mir::visit::MutatingUseContext::Call), loc);
                } else if let TerminatorKind::Return = &t.kind {
                    if !self.u.kill.contains(mir::RETURN_PLACE) {
                        self.u.gen_.insert(mir::RETURN_PLACE);
                    }
                } else if let TerminatorKind::Drop { .. } = &t.kind {
                } else {
                    self.super_terminator(t, loc);
                }
            }
        }
        let mut u = UseDef { gen_: &mut g, kill: &mut k };
        let mut w = Walk { u: &mut u };
        for (i, s) in bl.statements.iter().enumerate() {
            w.visit_statement(s, mir::Location { block: BasicBlock::from_u32(0), statement_index: i });
        }
        w.visit_terminator(bl.terminator(), mir::Location { block: BasicBlock::from_u32(0), statement_index: 0 });
        gens.push(g);
        kills.push(k);
    }
    let mut live: Vec<DenseBitSet<mir::Local>> = vec![DenseBitSet::new_empty(n); body.basic_blocks.len()];
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            let i = b.as_usize();
            let mut l: DenseBitSet<mir::Local> = DenseBitSet::new_empty(n);
            for s in normal_succs(&body.basic_blocks[b]) {
                l.union(&live[s.as_usize()]);
            }
            l.subtract(&kills[i]);
            l.union(&gens[i]);
            if l != live[i] {
                live[i] = l;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // slices handed in name the lengths other quantities are measured against
    for a in body.args_iter() {
        if let ty::Ref(_, p, _) = body.local_decls[a].ty.kind() {
            if matches!(p.kind(), ty::Slice(_)) {
                for l in &mut live {
                    l.insert(a);
                }
            }
        }
    }
    for l in &mut live {
        l.union(&always);
    }
    live
}
