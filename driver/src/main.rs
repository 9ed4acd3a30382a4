//! rqdump: a rustc driver, used as RUSTC_WRAPPER, that writes the typed, resolved
//! tree (THIR) of every body of the analysed crates as JSON.  It decides nothing.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths_if_doc_hidden};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(t: T) -> J {
    J::S(t.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

/// One id per definition, the same from whichever crate it is named.
/// Analysed crates: crate name + definition path; others: the usual visible path.
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let c = tcx.crate_name(d.krate);
    if ["annealers", "classical_solver", "rustqubo"].contains(&c.as_str()) {
        format!("{}{}", c, tcx.def_path(d).to_string_no_crate_verbose())
    } else {
        let p = with_no_trimmed_paths!(with_no_visible_paths_if_doc_hidden!(tcx.def_path_str(d)));
        p
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(self.ty(t)),
                    ty::GenericArgKind::Const(c) => Some(J::O(vec![("k", s("const")), ("v", s(format!("{}", c)))])),
                    _ => None,
                })
                .collect(),
        )
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        let k = |k: &str, mut v: Vec<(&'static str, J)>| {
            v.insert(0, ("k", s(k)));
            J::O(v)
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                k("prim", vec![("n", s(format!("{}", t)))])
            }
            ty::Adt(d, a) => k("adt", vec![("n", s(path(self.tcx, d.did()))), ("a", self.args(a))]),
            ty::Array(e, n) => k("array", vec![("e", self.ty(e)), ("len", s(format!("{}", n)))]),
            ty::Slice(e) => k("slice", vec![("e", self.ty(e))]),
            ty::RawPtr(e, m) => k("ptr", vec![("e", self.ty(e)), ("mut", J::B(m.is_mut()))]),
            ty::Ref(_, e, m) => k("ref", vec![("e", self.ty(e)), ("mut", J::B(m.is_mut()))]),
            ty::FnDef(d, a) => k(
                "fndef",
                vec![("n", s(path(self.tcx, d.into()))), ("a", self.args(a.skip_binder()))],
            ),
            ty::Closure(d, _) => k("closure", vec![("n", s(path(self.tcx, d.into())))]),
            ty::Tuple(ts) => k("tuple", vec![("e", J::A(ts.iter().map(|x| self.ty(x)).collect()))]),
            ty::Param(p) => k("param", vec![("n", s(p.name.as_str()))]),
            ty::Alias(_, al) if matches!(al.kind, ty::AliasTyKind::Projection { .. }) => {
                let ty::AliasTyKind::Projection { def_id } = al.kind else { unreachable!() };
                let d: DefId = def_id.into();
                k("proj", vec![("n", s(path(self.tcx, d))), ("a", self.args(al.args))])
            }
            _ => k("other", vec![("n", s(with_no_trimmed_paths!(format!("{}", t))))]),
        }
    }

    fn callee(&self, d: DefId, a: GenericArgsRef<'tcx>, out: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        out.push(("fn", s(path(tcx, d))));
        out.push(("ga", self.args(a)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            out.push(("trait", s(path(tcx, t))));
            let ok = matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::AssocConst { .. });
            if ok {
                let a2 = tcx.erase_and_anonymize_regions(a);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, a2) {
                    let rd = inst.def_id();
                    if rd != d {
                        out.push(("res", s(path(tcx, rd))));
                        out.push(("resa", self.args(inst.args)));
                    } else if tcx.defaultness(d).has_value() {
                        out.push(("resdefault", J::B(true)));
                    }
                }
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            if sig.safety().is_unsafe() {
                out.push(("unsafe", J::B(true)));
            }
        }
    }

    fn pat(&self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> J {
        let k = |k: &str, mut v: Vec<(&'static str, J)>| {
            v.insert(0, ("k", s(k)));
            v.push(("ty", self.ty(p.ty)));
            J::O(v)
        };
        let fields = |v: &Vec<FieldPat<'tcx>>| {
            J::A(v.iter().map(|f| J::A(vec![J::N(f.field.as_u32() as i128), self.pat(th, &f.pattern)])).collect())
        };
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => k("wild", vec![]),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let by = match mode.0 {
                    rustc_ast::ByRef::No => "val",
                    rustc_ast::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "refmut"
                        } else {
                            "ref"
                        }
                    }
                };
                k(
                    "bind",
                    vec![
                        ("name", s(name.as_str())),
                        ("var", s(self.var(*var))),
                        ("by", s(by)),
                        ("sub", subpattern.as_ref().map(|x| self.pat(th, x)).unwrap_or(J::Null)),
                    ],
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => k(
                "variant",
                vec![
                    ("adt", s(path(self.tcx, adt_def.did()))),
                    ("v", s(adt_def.variant(*variant_index).name.as_str())),
                    ("f", fields(subpatterns)),
                ],
            ),
            PatKind::Leaf { subpatterns } => k("leaf", vec![("f", fields(subpatterns))]),
            PatKind::Deref { subpattern, .. } => k("deref", vec![("p", self.pat(th, subpattern))]),
            PatKind::DerefPattern { subpattern, .. } => k("deref", vec![("p", self.pat(th, subpattern))]),
            PatKind::Constant { value } => k("const", vec![("v", s(with_no_trimmed_paths!(format!("{}", value))))]),
            PatKind::Range(r) => k("range", vec![("v", s(format!("{}", r)))]),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => k(
                "slice",
                vec![
                    ("pre", J::A(prefix.iter().map(|x| self.pat(th, x)).collect())),
                    ("mid", slice.as_ref().map(|x| self.pat(th, x)).unwrap_or(J::Null)),
                    ("suf", J::A(suffix.iter().map(|x| self.pat(th, x)).collect())),
                ],
            ),
            PatKind::Or { pats } => k("or", vec![("p", J::A(pats.iter().map(|x| self.pat(th, x)).collect()))]),
            PatKind::Guard { subpattern, condition } => {
                k("guard", vec![("p", self.pat(th, subpattern)), ("c", self.expr(th, *condition))])
            }
            PatKind::Error(_) => k("wild", vec![]),
        }
    }

    fn var(&self, v: LocalVarId) -> String {
        format!("{}.{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
    }

    fn block(&self, th: &Thir<'tcx>, b: BlockId) -> Vec<(&'static str, J)> {
        let b = &th[b];
        let mut stmts = vec![];
        for st in b.stmts.iter() {
            match &th[*st].kind {
                StmtKind::Expr { expr, .. } => {
                    stmts.push(J::O(vec![("k", s("expr")), ("e", self.expr(th, *expr))]));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    stmts.push(J::O(vec![
                        ("k", s("let")),
                        ("p", self.pat(th, pattern)),
                        ("e", initializer.map(|e| self.expr(th, e)).unwrap_or(J::Null)),
                        ("els", else_block.map(|e| J::O(self.block(th, e))).unwrap_or(J::Null)),
                        ("sp", self.span(*span)),
                    ]));
                }
            }
        }
        vec![
            ("k", s("block")),
            ("stmts", J::A(stmts)),
            ("e", b.expr.map(|e| self.expr(th, e)).unwrap_or(J::Null)),
            ("unsafe", J::B(!matches!(b.safety_mode, BlockSafety::Safe))),
            ("lbl", if b.targeted_by_break { s(format!("{}", b.region_scope.local_id.as_u32())) } else { J::Null }),
        ]
    }

    fn exprs(&self, th: &Thir<'tcx>, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(th, *e)).collect())
    }

    fn expr(&self, th: &Thir<'tcx>, id: ExprId) -> J {
        let e = &th[id];
        let tcx = self.tcx;
        let mut v: Vec<(&'static str, J)> = vec![];
        match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // keep the scope id of loops: break/continue name it
                let inner = self.expr(th, *value);
                if let J::O(mut f) = inner {
                    if f.iter().any(|(k, x)| *k == "k" && matches!(x, J::S(t) if t == "loop"))
                        && !f.iter().any(|(k, _)| *k == "lbl")
                    {
                        f.push(("lbl", s(format!("{}", region_scope.local_id.as_u32()))));
                    }
                    return J::O(f);
                }
                return inner;
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::ValueExpr { source } => return self.expr(th, *source),
            ExprKind::If { cond, then, else_opt, .. } => {
                v.push(("k", s("if")));
                // `debug_assert*!` bodies are absent from release builds
                if e.span.macro_backtrace().any(|x| match x.kind {
                    rustc_span::ExpnKind::Macro(_, n) => n.as_str().contains("debug_assert"),
                    _ => false,
                }) {
                    v.push(("dbg", J::B(true)));
                }
                v.push(("c", self.expr(th, *cond)));
                v.push(("t", self.expr(th, *then)));
                v.push(("f", else_opt.map(|x| self.expr(th, x)).unwrap_or(J::Null)));
            }
            ExprKind::Call { fun, args, ty, from_hir_call, .. } => {
                v.push(("k", s("call")));
                let _ = from_hir_call;
                if let ty::FnDef(d, a) = *ty.kind() {
                    self.callee(d.into(), a.skip_binder(), &mut v);
                } else {
                    v.push(("dyn", self.expr(th, *fun)));
                }
                v.push(("args", self.exprs(th, args)));
            }
            ExprKind::ByUse { expr, .. } => return self.expr(th, *expr),
            ExprKind::Deref { arg } => {
                v.push(("k", s("deref")));
                v.push(("e", self.expr(th, *arg)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                v.push(("k", s("bin")));
                v.push(("op", s(format!("{:?}", op))));
                v.push(("l", self.expr(th, *lhs)));
                v.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                v.push(("k", s("logic")));
                v.push(("op", s(format!("{:?}", op))));
                v.push(("l", self.expr(th, *lhs)));
                v.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::Unary { op, arg } => {
                v.push(("k", s("un")));
                v.push(("op", s(format!("{:?}", op))));
                v.push(("e", self.expr(th, *arg)));
            }
            ExprKind::Cast { source } => {
                v.push(("k", s("cast")));
                v.push(("e", self.expr(th, *source)));
            }
            ExprKind::NeverToAny { source } => {
                v.push(("k", s("never")));
                v.push(("e", self.expr(th, *source)));
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                v.push(("k", s("coerce")));
                v.push(("c", s(format!("{:?}", cast))));
                v.push(("e", self.expr(th, *source)));
            }
            ExprKind::Loop { body } => {
                v.push(("k", s("loop")));
                v.push(("e", self.expr(th, *body)));
            }
            ExprKind::Let { expr, pat } => {
                v.push(("k", s("letc")));
                v.push(("e", self.expr(th, *expr)));
                v.push(("p", self.pat(th, pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                v.push(("k", s("match")));
                v.push(("src", s(format!("{:?}", match_source))));
                v.push(("e", self.expr(th, *scrutinee)));
                v.push((
                    "arms",
                    J::A(arms
                        .iter()
                        .map(|a| {
                            let a = &th[*a];
                            J::O(vec![
                                ("p", self.pat(th, &a.pattern)),
                                ("g", a.guard.map(|g| self.expr(th, g)).unwrap_or(J::Null)),
                                ("b", self.expr(th, a.body)),
                            ])
                        })
                        .collect()),
                ));
            }
            ExprKind::Block { block } => v = self.block(th, *block),
            ExprKind::Assign { lhs, rhs } => {
                v.push(("k", s("assign")));
                v.push(("l", self.expr(th, *lhs)));
                v.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                v.push(("k", s("assignop")));
                v.push(("op", s(format!("{:?}", op))));
                v.push(("l", self.expr(th, *lhs)));
                v.push(("r", self.expr(th, *rhs)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                v.push(("k", s("field")));
                let lt = th[*lhs].ty;
                if let ty::Adt(d, _) = lt.kind() {
                    v.push(("adt", s(path(tcx, d.did()))));
                    v.push(("n", s(d.variant(*variant_index).fields[*name].name.as_str())));
                }
                v.push(("i", J::N(name.as_u32() as i128)));
                v.push(("e", self.expr(th, *lhs)));
            }
            ExprKind::Index { lhs, index } => {
                v.push(("k", s("index")));
                v.push(("e", self.expr(th, *lhs)));
                v.push(("i", self.expr(th, *index)));
            }
            ExprKind::VarRef { id } => {
                v.push(("k", s("var")));
                v.push(("v", s(self.var(*id))));
                v.push(("n", s(tcx.hir_name(id.0).as_str())));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                v.push(("k", s("var")));
                v.push(("up", J::B(true)));
                v.push(("v", s(self.var(*var_hir_id))));
                v.push(("n", s(tcx.hir_name(var_hir_id.0).as_str())));
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                v.push(("k", s("borrow")));
                v.push(("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                v.push(("e", self.expr(th, *arg)));
            }
            ExprKind::RawBorrow { arg, mutability } => {
                v.push(("k", s("rawborrow")));
                v.push(("mut", J::B(mutability.is_mut())));
                v.push(("e", self.expr(th, *arg)));
            }
            ExprKind::Break { label, value } => {
                v.push(("k", s("break")));
                v.push(("lbl", s(format!("{}", label.local_id.as_u32()))));
                v.push(("e", value.map(|x| self.expr(th, x)).unwrap_or(J::Null)));
            }
            ExprKind::Continue { label } => {
                v.push(("k", s("continue")));
                v.push(("lbl", s(format!("{}", label.local_id.as_u32()))));
            }
            ExprKind::Return { value } => {
                v.push(("k", s("return")));
                v.push(("e", value.map(|x| self.expr(th, x)).unwrap_or(J::Null)));
            }
            ExprKind::Repeat { value, count } => {
                v.push(("k", s("repeat")));
                v.push(("n", s(format!("{}", count))));
                v.push(("e", self.expr(th, *value)));
            }
            ExprKind::Array { fields } => {
                v.push(("k", s("array")));
                v.push(("f", self.exprs(th, fields)));
            }
            ExprKind::Tuple { fields } => {
                v.push(("k", s("tuple")));
                v.push(("f", self.exprs(th, fields)));
            }
            ExprKind::Adt(a) => {
                v.push(("k", s("adt")));
                v.push(("adt", s(path(tcx, a.adt_def.did()))));
                let var = a.adt_def.variant(a.variant_index);
                v.push(("v", s(var.name.as_str())));
                v.push((
                    "f",
                    J::A(a
                        .fields
                        .iter()
                        .map(|f| J::A(vec![s(var.fields[f.name].name.as_str()), self.expr(th, f.expr), J::N(f.name.as_u32() as i128)]))
                        .collect()),
                ));
                if let AdtExprBase::Base(b) = &a.base {
                    v.push(("base", self.expr(th, b.base)));
                }
            }
            ExprKind::Closure(c) => {
                v.push(("k", s("closure")));
                v.push(("n", s(path(tcx, c.closure_id.to_def_id()))));
                v.push(("up", self.exprs(th, &c.upvars)));
            }
            ExprKind::Literal { lit, neg } => {
                v.push(("k", s("lit")));
                use rustc_ast::LitKind::*;
                match &lit.node {
                    Int(n, _) => {
                        let n = n.get() as i128;
                        v.push(("v", J::N(if *neg { -n } else { n })));
                    }
                    Float(sym, _) => v.push(("f", s(format!("{}{}", if *neg { "-" } else { "" }, sym)))),
                    Bool(b) => v.push(("b", J::B(*b))),
                    Str(sym, _) => v.push(("s", s(sym.as_str()))),
                    o => v.push(("o", s(format!("{:?}", o)))),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                v.push(("k", s("lit")));
                v.push(("v", J::N(lit.to_bits_unchecked() as i128)));
            }
            ExprKind::ZstLiteral { .. } => {
                v.push(("k", s("zst")));
                if let ty::FnDef(d, a) = *e.ty.kind() {
                    self.callee(d.into(), a.skip_binder(), &mut v);
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                v.push(("k", s("const")));
                self.callee(*def_id, args, &mut v);
            }
            ExprKind::StaticRef { def_id, .. } => {
                v.push(("k", s("static")));
                v.push(("n", s(path(tcx, *def_id))));
            }
            ExprKind::ConstBlock { did, .. } => {
                v.push(("k", s("constblock")));
                v.push(("n", s(path(tcx, *did))));
            }
            ExprKind::Reborrow { source, .. } => {
                v.push(("k", s("borrow")));
                v.push(("mut", J::B(true)));
                v.push(("e", J::O(vec![("k", s("deref")), ("e", self.expr(th, *source)), ("ty", self.ty(e.ty)), ("sp", self.span(e.span))])));
            }
            o => {
                v.push(("k", s("unsupported")));
                let t = format!("{:?}", o);
                v.push(("d", s(t.chars().take(80).collect::<String>())));
            }
        }
        v.push(("ty", self.ty(e.ty)));
        v.push(("sp", self.span(e.span)));
        J::O(v)
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut fns = vec![];
    let mut bodies: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    // closures come with hir_body_owners too
    bodies.sort_by_key(|d| d.local_def_index);
    for d in bodies {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let Ok((th, root)) = tcx.thir_body(d) else { continue };
        let th = th.borrow();
        let th: &thir::Thir<'_> = &th;
        if th.exprs.is_empty() {
            continue;
        }
        let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did));
        let cx = Cx { tcx, env };
        let mut v = vec![("id", s(path(tcx, did))), ("kind", s(format!("{:?}", kind)))];
        v.push(("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
        v.push(("sp", cx.span(tcx.def_span(did))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            v.push(("pub", J::B(tcx.visibility(did).is_public())));
            let sig = tcx.fn_sig(did).skip_binder().skip_binder();
            v.push(("unsafe", J::B(sig.safety().is_unsafe())));
            v.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(d))));
            let g = tcx.generics_of(did);
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. } | ty::GenericParamDefKind::Const { .. }) {
                    names.push(s(p.name.as_str()));
                }
            }
            v.push(("generics", J::A(names)));
            v.push(("ret", cx.ty(sig.output())));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).skip_binder();
                v.push(("self_ty", cx.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    v.push(("trait", s(path(tcx, tr.def_id))));
                    v.push(("trait_args", cx.args(tr.args)));
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) {
                v.push(("in_trait", s(path(tcx, t))));
            }
            // was this produced by a user-visible function of the crate (cfg(test) excluded by the build)
        }
        v.push(("parent", s(path(tcx, tcx.parent(did)))));
        v.push((
            "params",
            J::A(th
                .params
                .iter()
                .map(|p| {
                    J::O(vec![
                        ("p", p.pat.as_ref().map(|x| cx.pat(th, x)).unwrap_or(J::Null)),
                        ("ty", cx.ty(p.ty)),
                    ])
                })
                .collect()),
        ));
        v.push(("body", cx.expr(th, root)));
        fns.push(J::O(v));
    }
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        let cx = Cx { tcx, env: ty::TypingEnv::fully_monomorphized() };
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(did);
                adts.push(J::O(vec![
                    ("id", s(path(tcx, did))),
                    ("kind", s(format!("{:?}", tcx.def_kind(did)))),
                    ("sp", cx.span(tcx.def_span(did))),
                    (
                        "variants",
                        J::A(a
                            .variants()
                            .iter()
                            .map(|vr| {
                                J::O(vec![
                                    ("n", s(vr.name.as_str())),
                                    (
                                        "f",
                                        J::A(vr
                                            .fields
                                            .iter()
                                            .map(|f| {
                                                J::O(vec![
                                                    ("n", s(f.name.as_str())),
                                                    ("pub", J::B(f.vis.is_public())),
                                                    ("ty", cx.ty(tcx.type_of(f.did).skip_binder())),
                                                ])
                                            })
                                            .collect()),
                                    ),
                                ])
                            })
                            .collect()),
                    ),
                ]));
            }
            DefKind::Impl { .. } => {
                let mut v = vec![("id", s(path(tcx, did))), ("sp", cx.span(tcx.def_span(did)))];
                v.push(("self_ty", cx.ty(tcx.type_of(did).skip_binder())));
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.skip_binder();
                    v.push(("trait", s(path(tcx, tr.def_id))));
                    v.push(("trait_args", cx.args(tr.args)));
                }
                let preds = tcx.clauses_of(did);
                let mut ps = vec![];
                for (p, _) in preds.clauses.iter() {
                    if let Some(tp) = p.as_trait_clause() {
                        let tr = tp.skip_binder().trait_ref;
                        ps.push(J::O(vec![("trait", s(path(tcx, tr.def_id))), ("args", cx.args(tr.args))]));
                    }
                }
                v.push(("preds", J::A(ps)));
                let g = tcx.generics_of(did);
                let mut names = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        names.push(s(p.name.as_str()));
                    }
                }
                v.push(("generics", J::A(names)));
                let mut assoc = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    let mut w = vec![("n", s(tcx.opt_item_name(it.def_id).map(|x| x.to_string()).unwrap_or_default())), ("id", s(path(tcx, it.def_id))), ("kind", s(format!("{:?}", tcx.def_kind(it.def_id))))];
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                        w.push(("ty", cx.ty(tcx.type_of(it.def_id).skip_binder())));
                    }
                    assoc.push(J::O(w));
                }
                v.push(("items", J::A(assoc)));
                impls.push(J::O(v));
            }
            _ => {}
        }
    }
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
    ]);
    let mut o = String::new();
    root.w(&mut o);
    std::fs::write(out, o).expect("write dump");
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the rustc to use
    let rustc = a.remove(1);
    let name = a.iter().position(|x| x == "--crate-name").and_then(|i| a.get(i + 1)).cloned().unwrap_or_default();
    let want = ["annealers", "classical_solver", "rustqubo"].contains(&name.as_str());
    let dir = std::env::var("RQDUMP_OUT").ok();
    if !want || dir.is_none() || a.iter().any(|x| x.starts_with("--print")) {
        let st = std::process::Command::new(rustc).args(&a[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    a.push("-Zno-steal-thir".into());
    a.push("-Awarnings".into());
    let mut cb = Cb { out: format!("{}/{}.json", dir.unwrap(), name) };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&a, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
