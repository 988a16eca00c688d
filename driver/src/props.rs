//! Rules attached to particular program events.
use crate::interp::*;
use crate::value::*;
use rustc_middle::ty::Ty;

pub fn on_push<'tcx>(_ip: &mut Interp<'tcx>, _st: &mut State<'tcx>, _t: Ty<'tcx>, _s: &Seq, _v: &V) {}
