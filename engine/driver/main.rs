//! rustc driver: dumps the type-checked program (THIR) of one crate as JSON.
//! Nothing of the crate is executed; the dump happens after type checking.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Mutex;

use rustc_ast::LitKind;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::GlobalId;
use rustc_middle::thir::{self, ExprId, ExprKind, Pat, PatKind, StmtKind, Thir};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::{Span, DUMMY_SP};

type ThirRes<'tcx> =
    Result<(&'tcx rustc_data_structures::steal::Steal<Thir<'tcx>>, ExprId), rustc_span::ErrorGuaranteed>;
static ORIG: Mutex<Option<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> ThirRes<'tcx>>> = Mutex::new(None);

thread_local! {
    static STORE: RefCell<HashMap<LocalDefId, (Thir<'static>, ExprId)>> = RefCell::new(HashMap::new());
}

fn my_thir_body<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> ThirRes<'tcx> {
    let f = ORIG.lock().unwrap().unwrap();
    let r = f(tcx, def);
    if let Ok((steal, root)) = &r {
        let t: Thir<'tcx> = steal.borrow().clone();
        // lifetime erasure: entries are only read while tcx is alive
        let t: Thir<'static> = unsafe { std::mem::transmute(t) };
        STORE.with(|s| s.borrow_mut().insert(def, (t, *root)));
    }
    r
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<(HashMap<Ty<'tcx>, usize>, Vec<String>)>,
    adts: RefCell<(HashMap<DefId, ()>, Vec<DefId>)>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let n = format!("{}", l.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", n, l.line))
    }
    /// produced by a macro of a crate outside this workspace
    fn foreign(&self, s: Span) -> bool {
        s.from_expansion() && match s.ctxt().outer_expn_data().macro_def_id {
            Some(d) => !d.is_local() && !self.tcx.crate_name(d.krate).as_str().starts_with("sia"),
            None => false,
        }
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                #[allow(unreachable_patterns)]
                _ => v.push("null".into()),
            }
        }
        format!("[{}]", v.join(","))
    }
    fn cst(&self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"cparam\":{}}}", esc(p.name.as_str())),
            ty::ConstKind::Value(v) => {
                match v.valtree.try_to_leaf() {
                    Some(s) => format!("{{\"cval\":{}}}", esc(&s.to_bits_unchecked().to_string())),
                    None => format!("{{\"cother\":{}}}", esc(&format!("{:?}", c))),
                }
            }
            ty::ConstKind::Alias(..) => {
                match self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(c)) {
                    Ok(n) if n != c => self.cst(n),
                    _ => format!("{{\"cother\":{}}}", esc(&format!("{:?}", c))),
                }
            }
            _ => format!("{{\"cother\":{}}}", esc(&format!("{:?}", c))),
        }
    }
    fn note_adt(&self, d: DefId) {
        let mut a = self.adts.borrow_mut();
        if a.0.insert(d, ()).is_none() {
            a.1.push(d);
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.borrow().0.get(&t) {
            return *i;
        }
        let s = match t.kind() {
            ty::Bool => "[\"bool\"]".to_string(),
            ty::Char => "[\"char\"]".to_string(),
            ty::Str => "[\"str\"]".to_string(),
            ty::Never => "[\"never\"]".to_string(),
            ty::Int(i) => format!("[\"int\",{}]", esc(i.name_str())),
            ty::Uint(i) => format!("[\"int\",{}]", esc(i.name_str())),
            ty::Float(f) => format!("[\"float\",{}]", esc(f.name_str())),
            ty::Adt(d, a) => {
                self.note_adt(d.did());
                format!("[\"adt\",{},{}]", esc(&self.key(d.did())), self.args(a))
            }
            ty::Array(t, n) => format!("[\"array\",{},{}]", self.ty(*t), self.cst(*n)),
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            ty::RawPtr(t, m) => format!("[\"ptr\",{},{}]", m.is_mut(), self.ty(*t)),
            ty::Ref(_, t, m) => format!("[\"ref\",{},{}]", m.is_mut(), self.ty(*t)),
            ty::FnDef(d, a) => {
                format!("[\"fndef\",{}]", self.callee((*d).into(), a.skip_binder()))
            }
            ty::FnPtr(..) => "[\"fnptr\"]".to_string(),
            ty::Dynamic(p, _) => format!("[\"dyn\",{}]", esc(&format!("{:?}", p))),
            ty::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key((*d).into()))),
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"tuple\",[{}]]", v.join(","))
            }
            ty::Alias(_, a) => match a.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    let d: DefId = def_id.into();
                    format!("[\"proj\",{},{},{}]", esc(&self.key(self.tcx.parent(d))),
                        esc(self.tcx.item_name(d).as_str()), self.args(a.args))
                }
                _ => format!("[\"other\",{}]", esc(&format!("{:?}", t))),
            },
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", t))),
        };
        let mut b = self.tys.borrow_mut();
        let i = b.1.len();
        b.0.insert(t, i);
        b.1.push(s);
        i
    }
    /// description of a function item + its generic arguments
    fn callee(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let kind = tcx.def_kind(d);
        let _ = write!(o, "{{\"key\":{},\"args\":{}", esc(&self.key(d)), self.args(a));
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
        }
        if let DefKind::Ctor(of, _) = kind {
            let parent = tcx.parent(d);
            let _ = write!(o, ",\"ctor\":{}", esc(&self.key(parent)));
            let _ = write!(o, ",\"ctor_of\":{}", esc(&format!("{:?}", of)));
        }
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            let p = tcx.parent(d);
            match tcx.def_kind(p) {
                DefKind::Trait => {
                    let ng = tcx.generics_of(p).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count();
                    let _ = write!(o, ",\"trait\":{},\"ntrait\":{}", esc(&self.key(p)), ng);
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"implself\":{}", self.ty(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"impltrait\":{}", esc(&self.key(tr.def_id)));
                    }
                }
                _ => {}
            }
        }
        let g = tcx.generics_of(d);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(esc(p.name.as_str()));
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            let _ = write!(o, ",\"unsafe\":true");
        }
        let _ = write!(o, ",\"params\":[{}],\"local\":{}}}", names.join(","), d.is_local());
        o
    }
    fn valtree(&self, v: ty::ValTree<'tcx>, t: Ty<'tcx>) -> String {
        // scalars -> decimal string; branches -> list; with type-directed bytes/str shortcuts
        match t.kind() {
            ty::Ref(_, inner, _) => return self.valtree(v, *inner),
            ty::Str => {
                if let Some(b) = v.try_to_raw_bytes_any() {
                    return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)));
                }
            }
            _ => {}
        }
        match v.try_to_leaf() {
            Some(s) => format!("{{\"s\":\"{}\"}}", s.to_bits_unchecked()),
            None => {
                let b = v.to_branch();
                let mut o = vec![];
                for c in b.iter() {
                    match c.kind() {
                        ty::ConstKind::Value(cv) => o.push(self.valtree(cv.valtree, cv.ty)),
                        _ => o.push("null".into()),
                    }
                }
                format!("{{\"b\":[{}]}}", o.join(","))
            }
        }
    }
    fn eval_const(&self, owner: DefId, d: DefId, a: GenericArgsRef<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if a.has_non_region_param() || a.has_aliases() {
            return None;
        }
        let _ = owner;
        let env = ty::TypingEnv::fully_monomorphized();
        let inst = ty::Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a)).ok()??;
        let cid = GlobalId { instance: inst, promoted: None };
        let t = tcx.type_of(inst.def_id()).instantiate(tcx, inst.args).skip_norm_wip();
        if t.has_aliases() { return None; }
        match tcx.const_eval_global_id_for_typeck(env, cid, DUMMY_SP) {
            Ok(Ok(v)) => Some(format!("{{\"ty\":{},\"v\":{}}}", self.ty(t), self.valtree(v, t))),
            _ => None,
        }
    }
    fn pat(&self, p: &Pat<'tcx>) -> String {
        let t = self.ty(p.ty);
        let subs = |v: &[thir::FieldPat<'tcx>]| {
            let v: Vec<_> = v.iter().map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(&f.pattern))).collect();
            format!("[{}]", v.join(","))
        };
        let list = |v: &[Pat<'tcx>]| {
            let v: Vec<_> = v.iter().map(|f| self.pat(f)).collect();
            format!("[{}]", v.join(","))
        };
        let body = match &p.kind {
            PatKind::Missing | PatKind::Wild => "\"k\":\"wild\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "move",
                    rustc_hir::ByRef::Yes(_, m) => if m.is_mut() { "refmut" } else { "ref" },
                };
                format!("\"k\":\"bind\",\"name\":{},\"var\":{},\"by\":\"{}\",\"sub\":{}",
                    esc(name.as_str()), var.0.local_id.as_usize(), by,
                    subpattern.as_ref().map(|s| self.pat(s)).unwrap_or("null".into()))
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                self.note_adt(adt_def.did());
                format!("\"k\":\"variant\",\"adt\":{},\"vi\":{},\"vn\":{},\"subs\":{}", esc(&self.key(adt_def.did())),
                    variant_index.as_usize(), esc(adt_def.variant(*variant_index).name.as_str()), subs(subpatterns))
            }
            PatKind::Leaf { subpatterns } => format!("\"k\":\"leaf\",\"subs\":{}", subs(subpatterns)),
            PatKind::Deref { subpattern, .. } => format!("\"k\":\"deref\",\"sub\":{}", self.pat(subpattern)),
            PatKind::DerefPattern { subpattern, .. } => format!("\"k\":\"derefp\",\"sub\":{}", self.pat(subpattern)),
            PatKind::Constant { value } => {
                format!("\"k\":\"const\",\"v\":{},\"vt\":{}", self.valtree(value.valtree, value.ty), self.ty(value.ty))
            }
            PatKind::Range(r) => {
                let b = |x: &thir::PatRangeBoundary<'tcx>| match x {
                    thir::PatRangeBoundary::Finite(v) => v.try_to_leaf().map(|s| esc(&s.to_bits_unchecked().to_string())).unwrap_or("null".into()),
                    _ => "null".to_string(),
                };
                format!("\"k\":\"range\",\"lo\":{},\"hi\":{},\"incl\":{},\"vt\":{}", b(&r.lo), b(&r.hi),
                    matches!(r.end, rustc_hir::RangeEnd::Included), self.ty(r.ty))
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                format!("\"k\":\"slice\",\"pre\":{},\"mid\":{},\"suf\":{}", list(prefix),
                    slice.as_ref().map(|s| self.pat(s)).unwrap_or("null".into()), list(suffix))
            }
            PatKind::Or { pats } => format!("\"k\":\"or\",\"pats\":{}", list(pats)),
            PatKind::Guard { subpattern, condition } => format!("\"k\":\"guard\",\"sub\":{},\"cond\":{}", self.pat(subpattern), condition.as_usize()),
            PatKind::Never => "\"k\":\"never\"".to_string(),
            PatKind::Error(_) => "\"k\":\"error\"".to_string(),
        };
        format!("{{\"ty\":{},{}}}", t, body)
    }
    fn expr(&self, owner: DefId, th: &Thir<'tcx>, e: &thir::Expr<'tcx>) -> String {
        let id = |e: &ExprId| e.as_usize();
        let oid = |e: &Option<ExprId>| e.map(|e| e.as_usize().to_string()).unwrap_or("null".into());
        let ids = |v: &[ExprId]| {
            let v: Vec<_> = v.iter().map(|e| e.as_usize().to_string()).collect();
            format!("[{}]", v.join(","))
        };
        let body = match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => format!("\"k\":\"scope\",\"s\":{},\"e\":{}", region_scope.local_id.as_usize(), id(value)),
            ExprKind::If { cond, then, else_opt, .. } => format!("\"k\":\"if\",\"c\":{},\"t\":{},\"f\":{}", id(cond), id(then), oid(else_opt)),
            ExprKind::Call { fun, args, ty, .. } => {
                let c = match ty.kind() {
                    ty::FnDef(d, a) => self.callee((*d).into(), a.skip_binder()),
                    _ => "null".into(),
                };
                format!("\"k\":\"call\",\"callee\":{},\"f\":{},\"a\":{}", c, id(fun), ids(args))
            }
            ExprKind::ByUse { expr, .. } => format!("\"k\":\"use\",\"e\":{}", id(expr)),
            ExprKind::Deref { arg } => format!("\"k\":\"deref\",\"e\":{}", id(arg)),
            ExprKind::Binary { op, lhs, rhs } => format!("\"k\":\"bin\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, id(lhs), id(rhs)),
            ExprKind::LogicalOp { op, lhs, rhs } => format!("\"k\":\"logic\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, id(lhs), id(rhs)),
            ExprKind::Unary { op, arg } => format!("\"k\":\"un\",\"op\":\"{:?}\",\"e\":{}", op, id(arg)),
            ExprKind::Cast { source } => format!("\"k\":\"cast\",\"e\":{}", id(source)),
            ExprKind::ValueExpr { source } => format!("\"k\":\"use\",\"e\":{}", id(source)),
            ExprKind::NeverToAny { source } => format!("\"k\":\"never\",\"e\":{}", id(source)),
            ExprKind::PointerCoercion { cast, source, .. } => format!("\"k\":\"coerce\",\"c\":{},\"e\":{}", esc(&format!("{:?}", cast)), id(source)),
            ExprKind::Loop { body } => format!("\"k\":\"loop\",\"b\":{}", id(body)),
            ExprKind::Let { expr, pat } => format!("\"k\":\"let\",\"e\":{},\"p\":{}", id(expr), self.pat(pat)),
            ExprKind::Match { scrutinee, arms, match_source } => {
                let v: Vec<_> = arms.iter().map(|a| {
                    let a = &th.arms[*a];
                    format!("{{\"p\":{},\"g\":{},\"b\":{},\"sp\":{}}}", self.pat(&a.pattern), oid(&a.guard), id(&a.body), self.span(a.span))
                }).collect();
                let ms = format!("{:?}", match_source);
                let ms = ms.split('(').next().unwrap().to_string();
                format!("\"k\":\"match\",\"e\":{},\"src\":{},\"arms\":[{}]", id(scrutinee), esc(&ms), v.join(","))
            }
            ExprKind::Block { block } => {
                format!("\"k\":\"block\",\"b\":{}", self.block(owner, th, *block))
            }
            ExprKind::Assign { lhs, rhs } => format!("\"k\":\"assign\",\"l\":{},\"r\":{}", id(lhs), id(rhs)),
            ExprKind::AssignOp { op, lhs, rhs } => format!("\"k\":\"assignop\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, id(lhs), id(rhs)),
            ExprKind::Field { lhs, variant_index, name } => format!("\"k\":\"field\",\"e\":{},\"vi\":{},\"i\":{}", id(lhs), variant_index.as_usize(), name.as_usize()),
            ExprKind::Index { lhs, index } => format!("\"k\":\"index\",\"e\":{},\"i\":{}", id(lhs), id(index)),
            ExprKind::VarRef { id } => format!("\"k\":\"var\",\"v\":{}", id.0.local_id.as_usize()),
            ExprKind::UpvarRef { var_hir_id, .. } => format!("\"k\":\"upvar\",\"v\":{}", var_hir_id.0.local_id.as_usize()),
            ExprKind::Borrow { borrow_kind, arg } => format!("\"k\":\"borrow\",\"m\":{},\"e\":{}", matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }), id(arg)),
            ExprKind::RawBorrow { mutability, arg } => format!("\"k\":\"rawborrow\",\"m\":{},\"e\":{}", mutability.is_mut(), id(arg)),
            ExprKind::Break { label, value } => format!("\"k\":\"break\",\"s\":{},\"e\":{}", label.local_id.as_usize(), oid(value)),
            ExprKind::Continue { label } => format!("\"k\":\"continue\",\"s\":{}", label.local_id.as_usize()),
            ExprKind::Return { value } => format!("\"k\":\"return\",\"e\":{}", oid(value)),
            ExprKind::ConstBlock { did, args } => format!("\"k\":\"constblock\",\"key\":{},\"args\":{}", esc(&self.key(*did)), self.args(args)),
            ExprKind::Repeat { value, count } => format!("\"k\":\"repeat\",\"e\":{},\"n\":{}", id(value), self.cst(*count)),
            ExprKind::Array { fields } => format!("\"k\":\"array\",\"a\":{}", ids(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"tuple\",\"a\":{}", ids(fields)),
            ExprKind::Adt(a) => {
                self.note_adt(a.adt_def.did());
                let fs: Vec<_> = a.fields.iter().map(|f| format!("[{},{}]", f.name.as_usize(), id(&f.expr))).collect();
                let base = match &a.base {
                    thir::AdtExprBase::None => "null".to_string(),
                    thir::AdtExprBase::Base(b) => id(&b.base).to_string(),
                    thir::AdtExprBase::DefaultFields(_) => "\"default\"".to_string(),
                };
                format!("\"k\":\"adt\",\"adt\":{},\"vi\":{},\"fs\":[{}],\"base\":{}", esc(&self.key(a.adt_def.did())), a.variant_index.as_usize(), fs.join(","), base)
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => format!("\"k\":\"use\",\"e\":{}", id(source)),
            ExprKind::Closure(c) => format!("\"k\":\"closure\",\"key\":{},\"up\":{}", esc(&self.key(c.closure_id.to_def_id())), ids(&c.upvars)),
            ExprKind::Literal { lit, neg } => {
                let v = match &lit.node {
                    LitKind::Str(s, _) => format!("\"str\",{}", esc(s.as_str())),
                    LitKind::ByteStr(b, _) | LitKind::CStr(b, _) => {
                        let v: Vec<_> = b.as_byte_str().iter().map(|x| x.to_string()).collect();
                        format!("\"bytes\",[{}]", v.join(","))
                    }
                    LitKind::Byte(b) => format!("\"int\",\"{}\"", b),
                    LitKind::Char(c) => format!("\"char\",{}", *c as u32),
                    LitKind::Int(n, _) => format!("\"int\",\"{}{}\"", if *neg { "-" } else { "" }, n.get()),
                    LitKind::Float(s, _) => format!("\"float\",{}", esc(&format!("{}{}", if *neg { "-" } else { "" }, s.as_str()))),
                    LitKind::Bool(b) => format!("\"bool\",{}", b),
                    LitKind::Err(_) => "\"err\",null".to_string(),
                };
                format!("\"k\":\"lit\",\"v\":[{}]", v)
            }
            ExprKind::NonHirLiteral { lit, .. } => format!("\"k\":\"lit\",\"v\":[\"scalar\",\"{}\"]", lit.to_bits_unchecked()),
            ExprKind::ZstLiteral { .. } => "\"k\":\"zst\"".to_string(),
            ExprKind::NamedConst { def_id, args, .. } => {
                let v = self.eval_const(owner, *def_id, args).unwrap_or("null".into());
                format!("\"k\":\"const\",\"callee\":{},\"v\":{}", self.callee(*def_id, args), v)
            }
            ExprKind::ConstParam { param, .. } => format!("\"k\":\"cparam\",\"name\":{}", esc(param.name.as_str())),
            ExprKind::StaticRef { def_id, .. } => format!("\"k\":\"static\",\"key\":{}", esc(&self.key(*def_id))),
            ExprKind::InlineAsm(_) => "\"k\":\"asm\"".to_string(),
            ExprKind::ThreadLocalRef(d) => format!("\"k\":\"tls\",\"key\":{}", esc(&self.key(*d))),
            other => format!("\"k\":\"unsupported\",\"d\":{}", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        format!("{{{},\"ty\":{},\"sp\":{}}}", body, self.ty(e.ty), self.span(e.span))
    }
    fn block(&self, _owner: DefId, th: &Thir<'tcx>, b: thir::BlockId) -> String {
        let b = &th.blocks[b];
        let mut v = vec![];
        for s in b.stmts.iter() {
            match &th.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => v.push(format!("{{\"k\":\"expr\",\"e\":{}}}", expr.as_usize())),
                StmtKind::Let { pattern, initializer, else_block, .. } => v.push(format!(
                    "{{\"k\":\"let\",\"p\":{},\"e\":{},\"else\":{}}}",
                    self.pat(pattern),
                    initializer.map(|e| e.as_usize().to_string()).unwrap_or("null".into()),
                    else_block.map(|e| self.block(_owner, th, e)).unwrap_or("null".into())
                )),
            }
        }
        let uns = match b.safety_mode {
            thir::BlockSafety::ExplicitUnsafe(_) => if self.foreign(b.span) { 2 } else { 1 },
            _ => 0,
        };
        format!("{{\"stmts\":[{}],\"e\":{},\"s\":{},\"brk\":{},\"unsafe\":{}}}", v.join(","),
            b.expr.map(|e| e.as_usize().to_string()).unwrap_or("null".into()),
            b.region_scope.local_id.as_usize(), b.targeted_by_break, uns)
    }
}

trait RawBytesAny { fn try_to_raw_bytes_any(&self) -> Option<Vec<u8>>; }
impl<'tcx> RawBytesAny for ty::ValTree<'tcx> {
    fn try_to_raw_bytes_any(&self) -> Option<Vec<u8>> {
        if self.try_to_leaf().is_some() { return None; }
        let mut o = vec![];
        for c in self.to_branch().iter() {
            match c.kind() {
                ty::ConstKind::Value(cv) => o.push(cv.valtree.try_to_leaf()?.to_bits_unchecked() as u8),
                _ => return None,
            }
        }
        Some(o)
    }
}

struct Cb { out: String }

/// reads sources from disk; the crate root gets the text of $VERIF_PROBE appended
struct Loader { root: std::path::PathBuf, extra: String }
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, p: &std::path::Path) -> bool { rustc_span::source_map::RealFileLoader.file_exists(p) }
    fn read_file(&self, p: &std::path::Path) -> std::io::Result<String> {
        let mut s = rustc_span::source_map::RealFileLoader.read_file(p)?;
        if p.canonicalize().ok().as_deref() == Some(self.root.as_path()) { s.push_str("\n"); s.push_str(&self.extra); }
        Ok(s)
    }
    fn read_binary_file(&self, p: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> { rustc_span::source_map::RealFileLoader.read_binary_file(p) }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> { rustc_span::source_map::RealFileLoader.current_directory() }
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if let Ok(f) = std::env::var("VERIF_PROBE") {
            if let rustc_session::config::Input::File(p) = &config.input {
                if let (Ok(root), Ok(extra)) = (p.canonicalize(), std::fs::read_to_string(&f)) {
                    config.file_loader = Some(Box::new(Loader { root, extra }));
                }
            }
        }
        config.override_queries = Some(|_s, p| {
            *ORIG.lock().unwrap() = Some(unsafe { std::mem::transmute(p.queries.thir_body) });
            p.queries.thir_body = my_thir_body;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx, tys: Default::default(), adts: Default::default() };
        let out = with_no_trimmed_paths!(dump(&cx));
        std::fs::write(&self.out, out).expect("write dump");
        Compilation::Continue
    }
}

fn dump<'tcx>(cx: &Cx<'tcx>) -> String {
    let tcx = cx.tcx;
    let mut bodies = vec![];
    for d in tcx.hir_body_owners() {
        let _ = tcx.ensure_ok().mir_borrowck(tcx.typeck_root_def_id(d.to_def_id()).expect_local());
    }
    let ids: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for d in ids {
        let got = STORE.with(|s| s.borrow().get(&d).map(|(t, r)| (t.clone(), *r)));
        let key = cx.key(d.to_def_id());
        let Some((t, root)) = got else {
            bodies.push(format!("{{\"key\":{},\"missing\":true}}", esc(&key)));
            continue;
        };
        let th: Thir<'tcx> = unsafe { std::mem::transmute(t) };
        let did = d.to_def_id();
        let mut o = String::new();
        let kind = tcx.def_kind(did);
        let _ = write!(o, "{{\"key\":{},\"kind\":{},\"pretty\":{},\"span\":{},\"root\":{}", esc(&key),
            esc(&format!("{:?}", kind)), esc(&tcx.def_path_str(did)), cx.span(tcx.def_span(did)), root.as_usize());
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
            let _ = write!(o, ",\"unsafe\":{}", if cx.foreign(tcx.def_span(did)) { 2 } else { 1 });
        }
        let g = tcx.generics_of(did);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(esc(p.name.as_str()));
            }
        }
        let _ = write!(o, ",\"generics\":[{}]", names.join(","));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(did).is_public();
            let eff = tcx.effective_visibilities(()).is_exported(d);
            let _ = write!(o, ",\"vis\":{},\"exported\":{},\"name\":{}", vis, eff, esc(tcx.item_name(did).as_str()));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"ret\":{}", cx.ty(sig.output()));
            let p = tcx.parent(did);
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"implkey\":{},\"implself\":{}", esc(&cx.key(p)), cx.ty(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"impltrait\":{},\"implargs\":{}", esc(&cx.key(tr.def_id)), cx.args(tr.args));
                    }
                }
                DefKind::Trait => { let _ = write!(o, ",\"intrait\":{}", esc(&cx.key(p))); }
                _ => {}
            }
        }
        let ps: Vec<_> = th.params.iter().map(|p| format!("{{\"pat\":{},\"ty\":{},\"self\":{}}}",
            p.pat.as_ref().map(|p| cx.pat(p)).unwrap_or("null".into()), cx.ty(p.ty), p.self_kind.is_some())).collect();
        let _ = write!(o, ",\"params\":[{}]", ps.join(","));
        let es: Vec<_> = th.exprs.iter().map(|e| cx.expr(did, &th, e)).collect();
        let _ = write!(o, ",\"exprs\":[{}]}}", es.join(","));
        bodies.push(o);
    }
    // impl table
    let mut impls = vec![];
    for (tr, v) in tcx.all_local_trait_impls(()).iter() {
        for i in v.iter() {
            let d = i.to_def_id();
            let trf = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            let mut items = vec![];
            for it in tcx.associated_items(d).in_definition_order() {
                if it.opt_name().is_none() { continue; }
                let extra = if matches!(it.kind, ty::AssocKind::Type { .. }) {
                    format!("{}", cx.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()))
                } else { "null".into() };
                items.push(format!("[{},{},{}]", esc(it.name().as_str()), esc(&cx.key(it.def_id)), extra));
            }
            let g = tcx.generics_of(d);
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { names.push(esc(p.name.as_str())); }
            }
            impls.push(format!("{{\"key\":{},\"trait\":{},\"args\":{},\"generics\":[{}],\"items\":[{}],\"span\":{},\"derived\":{},\"unsafe\":{}}}",
                esc(&cx.key(d)), esc(&cx.key(*tr)), cx.args(trf.args), names.join(","), items.join(","), cx.span(tcx.def_span(d)),
                tcx.is_automatically_derived(d), tcx.impl_trait_header(d).safety.is_unsafe()));
        }
    }
    // local items: statics, unsafe, all local adts
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                statics.push(format!("[{},{},{},{},{},{}]", esc(&cx.key(d)), cx.span(tcx.def_span(d)), cx.ty(t), mutability.is_mut(), freeze, cx.foreign(tcx.def_span(d))))
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.note_adt(d),
            _ => {}
        }
    }
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.generics_of(d).count() == 0 {
            if tcx.trait_of_assoc(d).is_some() { continue; }
            if let Some(v) = cx.eval_const(d, d, ty::GenericArgs::empty()) {
                consts.push(format!("{}:{}", esc(&cx.key(d)), v));
            }
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    loop {
        let d = { let a = cx.adts.borrow(); if i >= a.1.len() { break; } a.1[i] };
        i += 1;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if d.is_local() || v.fields.len() < 12 {
                    cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()).to_string()
                } else { "null".into() };
                fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, f.vis.is_public()));
            }
            vs.push(format!("[{},[{}]]", esc(v.name.as_str()), fs.join(",")));
        }
        let g = tcx.generics_of(d);
        let mut names = vec![];
        for k in 0..g.count() {
            let p = g.param_at(k, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) { names.push(esc(p.name.as_str())); }
        }
        let vis = if d.is_local() { tcx.effective_visibilities(()).is_exported(d.expect_local()) } else { true };
        adts.push(format!("{}:{{\"kind\":{},\"local\":{},\"generics\":[{}],\"variants\":[{}],\"exported\":{},\"span\":{}}}", esc(&cx.key(d)),
            esc(&format!("{:?}", def.adt_kind())), d.is_local(), names.join(","), vs.join(","), vis, cx.span(tcx.def_span(d))));
    }
    let tys = cx.tys.borrow();
    format!("{{\"bodies\":[\n{}\n],\"impls\":[\n{}\n],\"adts\":{{\n{}\n}},\"consts\":{{\n{}\n}},\"statics\":[{}],\"types\":[\n{}\n]}}\n",
        bodies.join(",\n"), impls.join(",\n"), adts.join(",\n"), consts.join(",\n"), statics.join(","), tys.1.join(",\n"))
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("VERIF_DUMP_CRATE").unwrap_or_default();
    let out = std::env::var("VERIF_DUMP_OUT").unwrap_or_default();
    if name.as_deref() == Some(want.as_str()) && !out.is_empty() {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
