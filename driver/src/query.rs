//! Queries over one compiled crate and over the call graph of the monomorphic program.
//!
//! `crate`: what a crate of the repository contains (unsafe constructs, the crates it is linked with).
//! `reach`: everything the given entry points can call, with the constructs that make a result depend on
//! anything but the arguments.
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir as hir;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, interpret::GlobalAlloc, visit::Visitor as MV, CastKind, Rvalue};
use rustc_middle::ty::{self, adjustment::PointerCoercion, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

pub fn run(tcx: TyCtxt<'_>) {
    let out = match std::env::var("VQ").unwrap_or_default().as_str() {
        "crate" => crate_facts(tcx),
        "reach" => Reach::run(tcx),
        "taint" => crate::taint::Taint::query(tcx),
        x => panic!("unknown query {x}"),
    };
    std::fs::write(std::env::var("VOUT").expect("VOUT"), out).expect("write result");
}
fn at(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

// ------------------------------------------------------------------ contents of one crate
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, String, String, String)>,
    blocks: usize,
    fns: usize,
    items: usize,
}
impl<'tcx> Unsafe<'tcx> {
    /// the innermost macro of another crate this code was expanded from, if any
    fn foreign_macro(&self, sp: Span) -> Option<String> {
        let mut sp = sp;
        let mut r = None;
        while sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            if let Some(m) = d.macro_def_id {
                if m.krate != LOCAL_CRATE && !crate::models::is_workspace(self.tcx.crate_name(m.krate).as_str()) {
                    r = r.or(Some(format!("{}::{}", self.tcx.crate_name(m.krate), self.tcx.item_name(m))));
                }
            } else {
                return None;
            }
            sp = d.call_site;
        }
        r
    }
    fn add(&mut self, what: &str, id: hir::HirId, sp: Span) {
        let m = self.foreign_macro(sp).unwrap_or_default();
        let f = self.tcx.def_path_str(self.tcx.hir_enclosing_body_owner_or_item(id));
        self.found.push((what.to_string(), f, at(self.tcx, sp), m));
    }
}
trait Owner {
    fn hir_enclosing_body_owner_or_item(self, id: hir::HirId) -> DefId;
}
impl Owner for TyCtxt<'_> {
    fn hir_enclosing_body_owner_or_item(self, id: hir::HirId) -> DefId {
        id.owner.def_id.to_def_id()
    }
}
impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        self.blocks += 1;
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.add("unsafe block", b.hir_id, b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, sp: Span, id: hir::def_id::LocalDefId) {
        self.fns += 1;
        if let Some(h) = k.header() {
            if matches!(h.safety, hir::HeaderSafety::Normal(hir::Safety::Unsafe)) {
                self.add("unsafe function", self.tcx.local_def_id_to_hir_id(id), sp);
            }
        }
        intravisit::walk_fn(self, k, d, b, id);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        self.items += 1;
        match &i.kind {
            hir::ItemKind::Static(hir::Mutability::Mut, ..) => self.add("static mut", i.hir_id(), i.span),
            hir::ItemKind::ForeignMod { .. } => self.add("foreign functions", i.hir_id(), i.span),
            hir::ItemKind::Union(..) => self.add("union", i.hir_id(), i.span),
            hir::ItemKind::GlobalAsm { .. } => self.add("assembly", i.hir_id(), i.span),
            hir::ItemKind::Impl(im) => {
                if im.of_trait.is_some_and(|t| t.safety == hir::Safety::Unsafe) {
                    self.add("unsafe impl", i.hir_id(), i.span)
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}
fn crate_facts(tcx: TyCtxt<'_>) -> String {
    let mut v = Unsafe { tcx, found: vec![], blocks: 0, fns: 0, items: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| crate::q(tcx.crate_name(*c).as_str())).collect();
    let f: Vec<String> = v.found.iter().map(|(w, f, s, m)| format!("{{\"what\":{},\"func\":{},\"site\":{},\"macro\":{}}}", crate::q(w), crate::q(f), crate::q(s), crate::q(m))).collect();
    format!("{{\"crate\":{},\"items\":{},\"functions\":{},\"blocks\":{},\"linked\":[{}],\"unsafe\":[{}]}}\n", crate::q(tcx.crate_name(LOCAL_CRATE).as_str()), v.items, v.fns, v.blocks, crates.join(","), f.join(","))
}

// ------------------------------------------------------------------ reachability
struct Reach<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    seen: FxHashSet<Instance<'tcx>>,
    parent: FxHashMap<Instance<'tcx>, (Instance<'tcx>, Span)>,
    work: Vec<Instance<'tcx>>,
    leaves: std::collections::BTreeMap<String, Instance<'tcx>>,
    statics: std::collections::BTreeMap<String, (DefId, Instance<'tcx>)>,
    entries: std::collections::BTreeMap<String, (Instance<'tcx>, Span)>,
    seen_static: FxHashSet<DefId>,
    seen_alloc: FxHashSet<mir::interpret::AllocId>,
    marks: Vec<(String, String, String, Instance<'tcx>)>,
    unresolved: Vec<(String, Instance<'tcx>)>,
    bodies: usize,
    calls: usize,
    per_crate: std::collections::BTreeMap<String, usize>,
}
struct BodyVisit<'a, 'tcx> {
    r: &'a mut Reach<'tcx>,
    cur: Instance<'tcx>,
    body: &'a mir::Body<'tcx>,
}
impl<'tcx> Reach<'tcx> {
    fn run(tcx: TyCtxt<'tcx>) -> String {
        let want = std::env::var("VFN").unwrap_or_default();
        let mut r = Reach {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            seen: Default::default(),
            parent: Default::default(),
            work: vec![],
            leaves: Default::default(),
            statics: Default::default(),
            entries: Default::default(),
            seen_static: Default::default(),
            seen_alloc: Default::default(),
            marks: vec![],
            unresolved: vec![],
            bodies: 0,
            calls: 0,
            per_crate: Default::default(),
        };
        let mut roots = vec![];
        for id in tcx.hir_body_owners() {
            let d = id.to_def_id();
            let p = tcx.def_path_str(d);
            let mono = !tcx.generics_of(d).requires_monomorphization(tcx);
            if mono && want.split(',').any(|w| w == "*" || p == w || (w.ends_with("::*") && p.starts_with(&w[..w.len() - 1]))) && matches!(tcx.def_kind(d), hir::def::DefKind::Fn | hir::def::DefKind::AssocFn) {
                roots.push(p);
                r.push(Instance::mono(tcx, d), None);
            }
        }
        while let Some(i) = r.work.pop() {
            r.visit(i);
        }
        r.json(&roots)
    }
    fn push(&mut self, i: Instance<'tcx>, from: Option<(Instance<'tcx>, Span)>) {
        if let Some((f, sp)) = from {
            if self.tcx.crate_name(i.def_id().krate).as_str() == "core" && !matches!(self.tcx.crate_name(f.def_id().krate).as_str(), "core" | "alloc" | "std") {
                let n = self.tcx.def_path_str(i.def_id());
                let ptr = i.args.types().next().is_some_and(|t| matches!(t.peel_refs().kind(), ty::RawPtr(..) | ty::FnPtr(..)));
                if n.contains("Argument") && (n.ends_with("::new_pointer") || (n.contains("::new_") && ptr)) {
                    self.marks.push(("address shown".into(), n, at(self.tcx, sp), f));
                }
            }
            let name = |d: DefId| self.tcx.crate_name(d.krate);
            if name(i.def_id()).as_str() == "std" && name(f.def_id()).as_str() != "std" {
                let mut n = self.tcx.def_path_str(i.def_id());
                let random = i.args.types().any(|t| t.walk().any(|x| x.as_type().is_some_and(|t| matches!(t.kind(), ty::Adt(a, _) if self.tcx.item_name(a.did()).as_str() == "RandomState"))));
                if random {
                    n.push_str(" (random order)");
                }
                let here = crate::models::is_workspace(name(f.def_id()).as_str());
                // prefer a call made by the repository itself
                if here || !self.entries.contains_key(&n) {
                    self.entries.insert(n, (f, sp));
                }
            }
        }
        if self.seen.insert(i) {
            if let Some(f) = from {
                self.parent.insert(i, f);
            }
            self.work.push(i);
        }
    }
    fn name(&self, i: Instance<'tcx>) -> String {
        self.tcx.def_path_str_with_args(i.def_id(), i.args)
    }
    fn visit(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        match i.def {
            ty::InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) || tcx.is_foreign_item(d) {
                    let n = tcx.def_path_str(d);
                    self.leaves.entry(n).or_insert(i);
                    return;
                }
            }
            ty::InstanceKind::Shim(_) => {}
            ty::InstanceKind::Intrinsic(d) | ty::InstanceKind::LlvmIntrinsic(d) => {
                let n = format!("intrinsic {}", tcx.item_name(d));
                self.leaves.entry(n).or_insert(i);
                return;
            }
            // what a dynamic call can reach is added where the vtable is made
            ty::InstanceKind::Virtual(..) => return,
        }
        if tcx.crate_name(i.def_id().krate).as_str() == "std" && !matches!(i.def, ty::InstanceKind::Shim(_)) {
            // the library is judged by the function entered; of its inside only what the caller handed over is followed
            let p = self.parent.get(&i).copied();
            for a in i.args.types() {
                for x in a.walk() {
                    if let Some(t) = x.as_type() {
                        match *t.kind() {
                            ty::Closure(d, a) => self.push(Instance::resolve_closure(tcx, d, a, ty::ClosureKind::FnOnce), p),
                            ty::FnDef(..) => {
                                if let Some((f, sp)) = p {
                                    self.fn_use(t, true, f, sp)
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            self.once(i);
            return;
        }
        let body = tcx.instance_mir(i.def).clone();
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body));
        self.bodies += 1;
        *self.per_crate.entry(tcx.crate_name(i.def_id().krate).to_string()).or_default() += 1;
        BodyVisit { r: self, cur: i, body: &body }.visit_body(&body);
    }
    fn once(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        // initialising a shared cell from something that was captured makes later results depend on the first call
        let n = tcx.def_path_str(i.def_id());
        if n.starts_with("std::sync::OnceLock") || n.starts_with("std::sync::LazyLock") || n.starts_with("std::sync::Once::") {
            let captures = i.args.types().any(|t| matches!(t.kind(), ty::Closure(_, a) if !a.as_closure().upvar_tys().is_empty()));
            let from_repo = self.parent.get(&i).is_some_and(|(p, _)| crate::models::is_workspace(tcx.crate_name(p.def_id().krate).as_str()));
            let p = self.parent.get(&i).map(|x| x.0).unwrap_or(i);
            if from_repo && (captures || n.ends_with("::set") || n.ends_with("::take")) {
                self.marks.push(("shared cell filled from a call".into(), n, String::new(), p));
            }
        }
    }
    fn fn_use(&mut self, t: Ty<'tcx>, direct: bool, from: Instance<'tcx>, sp: Span) {
        match *t.kind() {
            ty::FnDef(d, ga) => {
                let ga = ga.no_bound_vars().expect("bound vars");
                let r = if direct { Instance::try_resolve(self.tcx, self.env, d, ga).ok().flatten() } else { Instance::resolve_for_fn_ptr(self.tcx, self.env, d, ga) };
                match r {
                    Some(i) => self.push(i, Some((from, sp))),
                    None => self.unresolved.push((self.tcx.def_path_str(d), from)),
                }
            }
            ty::FnPtr(..) => {}
            _ => {}
        }
    }
    fn unsize(&mut self, s: Ty<'tcx>, t: Ty<'tcx>, from: Instance<'tcx>, sp: Span) {
        let tcx = self.tcx;
        let pair = match (s.kind(), t.kind()) {
            (ty::Pat(a, _), ty::Pat(b, _)) => return self.unsize(*a, *b, from, sp),
            (ty::Ref(_, a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) | (ty::RawPtr(a, _), ty::RawPtr(b, _)) => tcx.struct_lockstep_tails_for_codegen(*a, *b, self.env),
            _ if s.boxed_ty().is_some() && t.boxed_ty().is_some() => tcx.struct_lockstep_tails_for_codegen(s.boxed_ty().unwrap(), t.boxed_ty().unwrap(), self.env),
            (ty::Adt(a, x), ty::Adt(b, y)) if a == b && a.is_struct() => {
                for f in &a.non_enum_variant().fields {
                    let (p, q) = (tcx.normalize_erasing_regions(self.env, f.ty(tcx, x)), tcx.normalize_erasing_regions(self.env, f.ty(tcx, y)));
                    if p != q && !p.is_phantom_data() {
                        self.unsize(p, q, from, sp);
                    }
                }
                return;
            }
            _ => {
                self.unresolved.push((format!("unsizing {s} to {t}"), from));
                return;
            }
        };
        let (s, t) = pair;
        if t.is_trait() && !s.is_trait() {
            self.vtable(s, t, from, sp);
        }
    }
    fn vtable(&mut self, s: Ty<'tcx>, t: Ty<'tcx>, from: Instance<'tcx>, sp: Span) {
        let tcx = self.tcx;
        let ty::Dynamic(d, ..) = t.kind() else { return };
        if matches!(s.peel_refs().kind(), ty::RawPtr(..) | ty::FnPtr(..)) && d.principal().is_some_and(|p| tcx.def_path_str(p.def_id()).contains("fmt::")) && !matches!(tcx.crate_name(from.def_id().krate).as_str(), "core" | "alloc" | "std") {
            self.marks.push(("address shown".into(), format!("{s} as {t}"), at(tcx, sp), from));
        }
        if let Some(p) = d.principal() {
            let tr = tcx.instantiate_bound_regions_with_erased(p.with_self_ty(tcx, s));
            for e in tcx.vtable_entries(tr) {
                if let ty::VtblEntry::Method(i) = e {
                    self.push(*i, Some((from, sp)));
                }
            }
        }
        if s.needs_drop(tcx, self.env) {
            self.push(Instance::resolve_drop_glue(tcx, s), Some((from, sp)));
        }
    }
    fn alloc(&mut self, id: mir::interpret::AllocId, from: Instance<'tcx>, sp: Span) {
        if !self.seen_alloc.insert(id) {
            return;
        }
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => self.static_use(d, from, sp),
            GlobalAlloc::Memory(a) => {
                for p in a.inner().provenance().ptrs().values() {
                    self.alloc(p.alloc_id(), from, sp);
                }
            }
            GlobalAlloc::Function { instance, .. } => self.push(instance, Some((from, sp))),
            GlobalAlloc::VTable(s, d) => {
                let a = tcx.vtable_allocation((s, d.principal().map(|p| tcx.instantiate_bound_regions_with_erased(p))));
                self.alloc(a, from, sp)
            }
            GlobalAlloc::TypeId { .. } => {}
        }
    }
    fn static_use(&mut self, d: DefId, from: Instance<'tcx>, sp: Span) {
        let tcx = self.tcx;
        if !self.seen_static.insert(d) {
            return;
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let name = tcx.def_path_str(d);
        let kind = if tcx.is_thread_local_static(d) {
            "thread-local variable"
        } else if tcx.is_mutable_static(d) {
            "mutable static"
        } else if tcx.is_foreign_item(d) {
            "foreign static"
        } else if self.lazy(t) {
            "lazily initialised static"
        } else if !t.is_freeze(tcx, self.env) {
            "static with interior mutability"
        } else {
            ""
        };
        self.statics.insert(name.clone(), (d, from));
        if !kind.is_empty() {
            self.marks.push((kind.into(), format!("{name}: {t}"), at(tcx, sp), from));
        }
        if !tcx.is_foreign_item(d) && !tcx.is_thread_local_static(d) {
            if let Ok(a) = tcx.eval_static_initializer(d) {
                for p in a.inner().provenance().ptrs().values() {
                    self.alloc(p.alloc_id(), from, sp);
                }
            }
        }
    }
    /// a value computed once by a function without arguments, and not changed afterwards
    fn lazy(&self, t: Ty<'tcx>) -> bool {
        let ty::Adt(a, ga) = t.kind() else { return false };
        let p = self.tcx.def_path_str(a.did());
        (p == "std::sync::LazyLock" || p == "std::sync::OnceLock") && ga.types().next().is_some_and(|x| x.is_freeze(self.tcx, self.env))
    }
    fn chain(&self, i: Instance<'tcx>) -> String {
        let mut v = vec![];
        let mut c = i;
        loop {
            match self.parent.get(&c) {
                Some((p, sp)) => {
                    v.push(format!("{} [{}]", self.tcx.def_path_str(c.def_id()), at(self.tcx, *sp)));
                    c = *p;
                }
                None => {
                    v.push(self.tcx.def_path_str(c.def_id()));
                    break;
                }
            }
            if v.len() > 60 {
                break;
            }
        }
        v.reverse();
        v.join(" > ")
    }
    /// the last function of the repository on the way to `i`, and the call made there
    fn repo_site(&self, i: Instance<'tcx>) -> (String, String) {
        let mut c = i;
        let mut site = String::new();
        let mut n = 0;
        while !crate::models::is_workspace(self.tcx.crate_name(c.def_id().krate).as_str()) && n < 500 {
            match self.parent.get(&c) {
                Some((p, sp)) => {
                    site = at(self.tcx, *sp);
                    c = *p;
                }
                None => break,
            }
            n += 1;
        }
        (self.tcx.def_path_str(c.def_id()), site)
    }
    fn json(&self, roots: &[String]) -> String {
        let q = crate::q;
        let foreign: Vec<String> = self.leaves.values().filter(|i| matches!(i.def, ty::InstanceKind::Item(d) if self.tcx.is_foreign_item(d))).map(|i| q(&self.tcx.def_path_str(i.def_id()))).collect();
        let item = |kind: &str, what: &str, site: &str, i: Instance<'tcx>| {
            let (f, s) = self.repo_site(i);
            format!("{{\"kind\":{},\"what\":{},\"crate\":{},\"from\":{},\"at\":{},\"func\":{},\"site\":{},\"stack\":{}}}", q(kind), q(what), q(self.tcx.crate_name(i.def_id().krate).as_str()), q(&self.parent.get(&i).map(|p| self.tcx.crate_name(p.0.def_id().krate).to_string()).unwrap_or_default()), q(site), q(&f), q(&s), q(&self.chain(i)))
        };
        let leaves: Vec<String> = self.leaves.iter().map(|(n, i)| item("leaf", n, "", *i)).collect();
        let marks: Vec<String> = self.marks.iter().map(|(k, w, s, i)| item(k, w, s, *i)).collect();
        let un: Vec<String> = self.unresolved.iter().map(|(w, i)| item("unresolved", w, "", *i)).collect();
        let st: Vec<String> = self.statics.iter().map(|(n, (_, i))| item("static", n, "", *i)).collect();
        let pc: Vec<String> = self.per_crate.iter().map(|(k, n)| format!("{}:{n}", q(k))).collect();
        let mut ws: Vec<String> = self.seen.iter().filter(|i| crate::models::is_workspace(self.tcx.crate_name(i.def_id().krate).as_str())).map(|i| self.tcx.def_path_str(i.def_id())).collect();
        ws.sort();
        ws.dedup();
        // every std/core/alloc function by path, for the module rules
        let mut all: std::collections::BTreeMap<String, Instance<'tcx>> = Default::default();
        for i in &self.seen {
            let k = self.tcx.crate_name(i.def_id().krate).to_string();
            if !crate::models::is_workspace(&k) {
                all.entry(self.tcx.def_path_str(i.def_id())).or_insert(*i);
            }
        }
        let en: Vec<String> = self.entries.iter().map(|(n, (i, sp))| item("entry", n, &at(self.tcx, *sp), *i)).collect();
        let all: Vec<String> = all.iter().map(|(n, i)| item("fn", n, "", *i)).collect();
        format!(
            "{{\"roots\":[{}],\"instances\":{},\"bodies\":{},\"calls\":{},\"crates\":{{{}}},\"workspace\":[{}],\"leaves\":[{}],\"statics\":[{}],\"marks\":[{}],\"unresolved\":[{}],\"foreign\":[{}],\"entries\":[{}],\"external\":[{}]}}\n",
            roots.iter().map(|r| q(r)).collect::<Vec<_>>().join(","),
            self.seen.len(),
            self.bodies,
            self.calls,
            pc.join(","),
            ws.iter().map(|r| q(r)).collect::<Vec<_>>().join(","),
            leaves.join(",\n"),
            st.join(",\n"),
            marks.join(",\n"),
            un.join(",\n"),
            foreign.join(","),
            en.join(",\n"),
            all.join(",\n")
        )
    }
}
impl<'a, 'tcx> MV<'tcx> for BodyVisit<'a, 'tcx> {
    fn visit_rvalue(&mut self, rv: &Rvalue<'tcx>, loc: mir::Location) {
        let sp = self.body.source_info(loc).span;
        let tcx = self.r.tcx;
        match rv {
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize, _), op, t) => {
                let s = op.ty(self.body, tcx);
                self.r.unsize(s, *t, self.cur, sp);
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _), op, _) => {
                let t = op.ty(self.body, tcx);
                self.r.fn_use(t, false, self.cur, sp);
            }
            Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _), op, _) => {
                if let ty::Closure(d, a) = *op.ty(self.body, tcx).kind() {
                    let i = Instance::resolve_closure(tcx, d, a, ty::ClosureKind::FnOnce);
                    self.r.push(i, Some((self.cur, sp)));
                }
            }
            Rvalue::Cast(CastKind::PointerExposeProvenance, op, _) => {
                let t = op.ty(self.body, tcx);
                self.r.marks.push(("address as number".into(), format!("{t}"), at(tcx, sp), self.cur));
            }
            Rvalue::ThreadLocalRef(d) => self.r.static_use(*d, self.cur, sp),
            _ => {}
        }
        self.super_rvalue(rv, loc);
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, loc: mir::Location) {
        let sp = self.body.source_info(loc).span;
        let tcx = self.r.tcx;
        if let Ok(v) = c.const_.eval(tcx, self.r.env, sp) {
            match v {
                mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => self.r.alloc(p.provenance.alloc_id(), self.cur, sp),
                mir::ConstValue::Indirect { alloc_id, .. } | mir::ConstValue::Slice { alloc_id, .. } => self.r.alloc(alloc_id, self.cur, sp),
                _ => {}
            }
        }
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, loc: mir::Location) {
        let sp = t.source_info.span;
        let tcx = self.r.tcx;
        match &t.kind {
            mir::TerminatorKind::Call { func, .. } | mir::TerminatorKind::TailCall { func, .. } => {
                self.r.calls += 1;
                let t = func.ty(self.body, tcx);
                self.r.fn_use(t, true, self.cur, sp);
            }
            mir::TerminatorKind::Drop { place, .. } => {
                let t = place.ty(self.body, tcx).ty;
                if t.needs_drop(tcx, self.r.env) {
                    self.r.push(Instance::resolve_drop_glue(tcx, t), Some((self.cur, sp)));
                }
            }
            mir::TerminatorKind::InlineAsm { .. } => self.r.marks.push(("assembly".into(), String::new(), at(tcx, sp), self.cur)),
            _ => {}
        }
        self.super_terminator(t, loc);
    }
}
