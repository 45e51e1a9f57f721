#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;
mod calls;
mod engine;
mod ghost;
mod interp;
mod join;
mod num;
mod summ;
mod tys;
mod val;
mod vecs;

use crate::engine::*;
use crate::num::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, InstanceKind, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use rustc_data_structures::fx::FxHashMap as HashMap;
use std::rc::Rc;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != "vharness" { return rustc_driver::Compilation::Continue; }
        analyse(tcx);
        rustc_driver::Compilation::Continue
    }
}

fn analyse<'tcx>(tcx: TyCtxt<'tcx>) {
    let only = std::env::var("VERIF_ONLY").unwrap_or_default();
    let verbose = std::env::var("VERIF_VERBOSE").is_ok();
    let max: usize = std::env::var("VERIF_STEPS").ok().and_then(|s| s.parse().ok()).unwrap_or(400_000);
    // time for one contract, and for all
    let secs: u64 = std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
    let total = std::time::Duration::from_secs(if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { 340 } else { 700 });
    let begin = std::time::Instant::now();
    let mut roots: Vec<(String, DefId)> = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn { continue; }
        if !tcx.visibility(d).is_public() { continue; }
        let Some(p) = tcx.opt_parent(d) else { continue };
        if tcx.def_kind(p) != DefKind::Mod { continue; }
        let Some(pn) = tcx.opt_item_name(p) else { continue };
        let pn = pn.to_string();
        if !(pn.len() >= 3 && pn.starts_with('c') && pn[1..3].chars().all(|c| c.is_ascii_digit())) { continue; }
        let name = format!("{pn}::{}", tcx.item_name(d));
        if !only.is_empty() && !only.split(',').any(|o| o == pn || o == name || (o.ends_with('*') && name.starts_with(&o[..o.len() - 1]))) { continue; }
        roots.push((name, d));
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    if let Some((i, n)) = std::env::var("VERIF_SHARD").ok().and_then(|v| { let (i, n) = v.split_once('/')?; Some((i.parse::<usize>().ok()?, n.parse::<usize>().ok()?)) }) {
        let mut k = 0;
        roots.retain(|_| { k += 1; (k - 1) % n == i });
    }
    let repo: BTreeSet<String> = ["alloc_traits", "static_alloc", "without_alloc", "exit_stack", "fill", "unsize", "vharness"].iter().map(|s| s.to_string()).collect();
    let mut out = vec![];
    for (name, did) in roots {
        let t0 = std::time::Instant::now();
        let left = total.saturating_sub(begin.elapsed());
        reset_tab(); clear_cache(); tk_reset();
        let tenv = ty::TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let layout_ty = find_layout_ty(tcx);
        let mut cx = Cx {
            tcx, tenv,
            layouts: RefCell::new(HashMap::default()), sizes: RefCell::new(HashMap::default()), offs: RefCell::new(HashMap::default()),
            bodies: HashMap::default(), promoted: HashMap::default(), next_obj: 16, next_tok: 16, tok_info: HashMap::default(), zst_toks: HashMap::default(), children: HashMap::default(), named: HashMap::default(),
            steps: 0, max_steps: max, deadline: t0 + left.min(std::time::Duration::from_secs(secs)), depth: 0, stack: vec![], callstack_spans: vec![], obls: BTreeMap::new(), funcs: BTreeSet::new(), unmodeled: BTreeMap::new(),
            undecided: vec![], calls: 0, paths: 0, loops: 0, joins: 0, fork_pending: vec![], fork_i: 0, obs_buf: vec![], repo_crates: repo.clone(), verbose,
            cur_span: tcx.def_span(did), extra_roots: vec![], overflow_checks: tcx.sess.overflow_checks(), strs: HashMap::default(), meta_vals: HashMap::default(),
            lists: HashMap::default(), seq_ids: RefCell::new(BTreeSet::new()), layout_ty_cache: layout_ty, reached: BTreeSet::new(),
        };
        let mut st = State { objs: BTreeMap::new(), facts: Facts::default(), log: vec![], trail: None, unwind: false, forbid_panic: false, panicking: false, allow_alloc_fail: false, dead: false, ghost: BTreeMap::new(), seen: vec![] };
        for (id, k, n) in [(NULL, ObjKind::Null, "null"), (INT, ObjKind::Int, "address")] { cx.put_obj(&mut st, id, k, n, None, Lin::k(1)); }
        let inst = Instance { def: InstanceKind::Item(did), args };
        let body = cx.body_of(inst, 0).expect("body of a contract");
        let tys: Vec<ty::Ty<'tcx>> = body.args_iter().map(|l| cx.norm(body.local_decls[l].ty)).collect();
        let names: Vec<String> = body.args_iter().enumerate().map(|(i, l)| body.var_debug_info.iter().find(|v| matches!(&v.value, rustc_middle::mir::VarDebugInfoContents::Place(p) if p.as_local() == Some(l))).map(|v| v.name.to_string()).unwrap_or(format!("arg{i}"))).collect();
        let mut states = cx.retry(st, &mut |cx, s| {
            let mut v = vec![];
            for (t, n) in tys.iter().zip(&names) { v.push(cx.fresh_val(s, *t, n, None)?); }
            Ok(v)
        });
        let mut outs = 0;
        for (s, v) in states.drain(..) {
            let r = cx.run_body(s, inst, body.clone(), v, false);
            outs += r.len();
            cx.flush();
        }
        cx.flush();
        let ms = t0.elapsed().as_millis();
        let mut obl = vec![];
        for (l, o) in &cx.obls {
            let mut seen = BTreeSet::new();
            let mut f = vec![];
            for x in &o.failed {
                if !seen.insert((x.at.clone(), x.msg.clone())) { continue; }
                if f.len() >= 6 { break; }
                f.push(format!("{{\"msg\":{},\"at\":{},\"trail\":{},\"facts\":{},\"log\":{}}}", esc(&x.msg), esc(&x.at), list(&x.trail), list(&x.facts), list(&x.log)));
            }
            obl.push(format!("{{\"label\":{},\"checked\":{},\"failed\":{},\"failures\":[{}]}}", esc(l), o.checked, o.failed.len(), f.join(",")));
        }
        let um: Vec<String> = cx.unmodeled.keys().cloned().collect();
        out.push(format!("{{\"root\":{},\"ms\":{},\"steps\":{},\"calls\":{},\"paths\":{},\"loop_visits\":{},\"joins\":{},\"functions\":{},\"unmodeled\":{},\"undecided\":{},\"reached\":{},\"obligations\":[{}]}}",
            esc(&name), ms, cx.steps, cx.calls, outs, cx.loops, cx.joins, list(&cx.funcs.iter().cloned().collect::<Vec<_>>()), list(&um), list(&cx.undecided), list(&cx.reached.iter().cloned().collect::<Vec<_>>()), obl.join(",")));
        if verbose || std::env::var("VERIF_PROGRESS").is_ok() { eprintln!("root {name}: {ms} ms, {outs} paths, {} steps, {} undecided", cx.steps, cx.undecided.len()); }
    }
    let json = format!("[{}]\n", out.join(",\n"));
    match std::env::var("VERIF_OUT") { Ok(f) => std::fs::write(f, json).expect("write output"), Err(_) => println!("{json}") }
}

fn find_layout_ty<'tcx>(tcx: TyCtxt<'tcx>) -> Option<ty::Ty<'tcx>> {
    let d = tcx.lang_items().alloc_layout()?;
    Some(tcx.type_of(d).instantiate_identity().skip_norm_wip())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let _ = Rc::new(0);
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
