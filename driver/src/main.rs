//! cernan fact extractor: a rustc_private driver (rustc 1.39.0) that dumps the
//! type-checked MIR of the crate being compiled, with resolved callees, field
//! names, literals, ADT layouts and trait impls, as JSON.
//!
//! Used as RUSTC_WRAPPER: argv = [driver, rustc, args...].  For every crate
//! other than the one named by FACTS_CRATE it simply execs the real rustc.
#![feature(rustc_private)]
extern crate rustc;
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_mir;
extern crate rustc_data_structures;
extern crate syntax;
extern crate syntax_pos;
use rustc::hir::def::DefKind;
use rustc::hir::def_id::{DefId, LOCAL_CRATE};
use rustc::mir::interpret::{ConstValue, GlobalId, Scalar};
use rustc::mir::tcx::PlaceTy;
use rustc::mir::*;
use rustc::ty::{self, Instance, Ty, TyCtxt};
use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;
use syntax_pos::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    seen: HashSet<DefId>,
    closures: BTreeMap<String, String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn span(&self, sp: Span) -> String {
        let bt = sp.macro_backtrace();
        let mac = bt
            .iter()
            .map(|m| m.macro_decl_name.clone())
            .collect::<Vec<_>>()
            .join(" ");
        let outer = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(outer.lo());
        if mac.is_empty() {
            format!("[{},{}]", esc(&lo.file.name.to_string()), lo.line)
        } else {
            format!(
                "[{},{},{}]",
                esc(&lo.file.name.to_string()),
                lo.line,
                esc(&mac)
            )
        }
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for x in t.walk() {
            if let ty::Adt(def, _) = x.sty {
                self.note_adt(def);
            }
            if let ty::Closure(d, _) = x.sty {
                if d.is_local() {
                    let p = self.path(d);
                    self.closures.insert(x.to_string(), p);
                }
            }
        }
    }

    fn note_adt(&mut self, def: &'tcx ty::AdtDef) {
        if !self.seen.insert(def.did) {
            return;
        }
        let mut s = String::new();
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let _ = write!(s, "{{\"kind\":\"{}\",\"variants\":[", kind);
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        for (i, v) in def.variants.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(
                s,
                "{{\"name\":{},\"discr\":{},\"fields\":[",
                esc(&v.ident.name.as_str()),
                discrs.get(i).cloned().unwrap_or(0)
            );
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 {
                    s.push(',');
                }
                let t = if def.did.is_local() {
                    self.tcx.type_of(f.did).to_string()
                } else {
                    String::new()
                };
                let _ = write!(s, "[{},{}]", esc(&f.ident.name.as_str()), esc(&t));
            }
            s.push_str("]}");
        }
        s.push_str("]}");
        let p = self.path(def.did);
        self.adts.insert(p, s);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_ty(t);
        esc(&t.to_string())
    }

    fn proj(
        &mut self,
        base: Ty<'tcx>,
        projs: &[PlaceElem<'tcx>],
    ) -> (String, Ty<'tcx>) {
        let mut pt = PlaceTy::from_ty(base);
        let mut o = String::from("[");
        for (i, e) in projs.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match *e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.sty {
                        ty::Adt(def, _) => {
                            self.note_adt(def);
                            let v = match pt.variant_index {
                                Some(v) => &def.variants[v],
                                None => def.non_enum_variant(),
                            };
                            v.fields[f.index()].ident.name.as_str().to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    let own = match pt.ty.sty {
                        ty::Adt(def, _) => self.path(def.did),
                        ty::Closure(d, _) => self.path(d),
                        _ => "()".to_string(),
                    };
                    let t = self.ty(fty);
                    let _ = write!(o, "[\"f\",{},{},{}]", esc(&name), esc(&own), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.index());
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => {
                    let _ = write!(o, "[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to } => {
                    let _ = write!(o, "[\"s\",{},{}]", from, to);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.sty {
                        ty::Adt(def, _) => {
                            self.note_adt(def);
                            def.variants[v].ident.name.as_str().to_string()
                        }
                        _ => format!("{}", v.index()),
                    };
                    let _ = write!(o, "[\"d\",{}]", esc(&name));
                }
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        (o, pt.ty)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        match &p.base {
            PlaceBase::Local(l) => {
                let (pr, _) = self.proj(body.local_decls[*l].ty, &p.projection);
                if p.projection.is_empty() {
                    format!("[{}]", l.index())
                } else {
                    format!("[{},{}]", l.index(), pr)
                }
            }
            PlaceBase::Static(st) => {
                let (pr, _) = self.proj(st.ty, &p.projection);
                let nm = match &st.kind {
                    StaticKind::Static => self.path(st.def_id),
                    StaticKind::Promoted(pi, _) => {
                        format!("promoted:{}:{}", self.path(st.def_id), pi.index())
                    }
                };
                format!("[{},{}]", esc(&nm), pr)
            }
        }
    }

    fn constant(&mut self, did: DefId, c: &'tcx ty::Const<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let t = self.ty(c.ty);
        let _ = write!(o, "\"ty\":{}", t);
        match c.ty.sty {
            ty::FnDef(d, substs) => {
                let _ = write!(o, ",\"fn\":{}", esc(&self.path(d)));
                let pe = tcx.param_env(did);
                let args: Vec<String> = substs.types().map(|t| t.to_string()).collect();
                for t in substs.types() {
                    self.note_ty(t);
                }
                o.push_str(",\"targs\":[");
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&esc(a));
                }
                o.push(']');
                if let Some(inst) = Instance::resolve(tcx, pe, d, substs) {
                    let rd = inst.def_id();
                    let k = match inst.def {
                        ty::InstanceDef::Item(_) => "item",
                        ty::InstanceDef::Virtual(..) => "virtual",
                        ty::InstanceDef::ClosureOnceShim { .. } => "closure_once",
                        ty::InstanceDef::CloneShim(..) => "clone_shim",
                        ty::InstanceDef::FnPtrShim(..) => "fnptr",
                        ty::InstanceDef::DropGlue(..) => "drop",
                        ty::InstanceDef::Intrinsic(..) => "intrinsic",
                        _ => "other",
                    };
                    if rd != d || k != "item" {
                        let _ = write!(
                            o,
                            ",\"res\":{},\"rk\":{}",
                            esc(&self.path(rd)),
                            esc(k)
                        );
                    }
                }
                if let Some(tr) = tcx.trait_of_item(d) {
                    let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
                }
                o.push('}');
                return o;
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"closure\":{}", esc(&self.path(d)));
            }
            _ => {}
        }
        let mut c = c;
        if let ConstValue::Unevaluated(d, substs) = c.val {
            let _ = write!(o, ",\"path\":{}", esc(&self.path(d)));
            let pe = tcx.param_env(did);
            if let Some(inst) = Instance::resolve(tcx, pe, d, substs) {
                if !c.ty.needs_subst_x() {
                    if let Ok(v) = tcx.const_eval(pe.and(GlobalId {
                        instance: inst,
                        promoted: None,
                    })) {
                        c = v;
                    }
                }
            }
        }
        match c.val {
            ConstValue::Scalar(Scalar::Raw { data, size }) => match c.ty.sty {
                ty::Bool => {
                    let _ = write!(o, ",\"b\":{}", data != 0);
                }
                ty::Int(_) => {
                    let bits = size as u32 * 8;
                    let v = if bits == 128 || bits == 0 {
                        data as i128
                    } else {
                        let sh = 128 - bits;
                        ((data << sh) as i128) >> sh
                    };
                    let _ = write!(o, ",\"i\":{}", v);
                }
                ty::Uint(_) => {
                    let _ = write!(o, ",\"i\":{}", data);
                }
                ty::Char => {
                    let ch = std::char::from_u32(data as u32).unwrap_or('?');
                    let _ = write!(o, ",\"ch\":{}", esc(&ch.to_string()));
                }
                ty::Float(_) => {
                    let f = if size == 4 {
                        f32::from_bits(data as u32) as f64
                    } else {
                        f64::from_bits(data as u64)
                    };
                    let _ = write!(o, ",\"fl\":{}", esc(&format!("{:?}", f)));
                }
                _ => {
                    let _ = write!(o, ",\"raw\":{}", data);
                }
            },
            ConstValue::Slice { data, start, end } => {
                let bytes = &data.bytes_x()[start..end];
                let s = String::from_utf8_lossy(bytes).to_string();
                let _ = write!(o, ",\"s\":{}", esc(&s));
            }
            ConstValue::Scalar(Scalar::Ptr(p)) => {
                if let Some(rustc::mir::interpret::GlobalAlloc::Static(d)) =
                    tcx.alloc_map.lock().get(p.alloc_id)
                {
                    let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
                }
                let g = tcx.alloc_map.lock().get(p.alloc_id);
                if let Some(rustc::mir::interpret::GlobalAlloc::Memory(a)) = g {
                    let bytes = a.bytes_x();
                    if bytes.len() <= 256 {
                        let s = String::from_utf8_lossy(bytes).to_string();
                        let _ = write!(o, ",\"bytes\":{}", esc(&s));
                    }
                }
            }
            _ => {}
        }
        o.push('}');
        o
    }

    fn operand(&mut self, did: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(did, c.literal)),
        }
    }

    fn operands(
        &mut self,
        did: DefId,
        body: &Body<'tcx>,
        ops: &[Operand<'tcx>],
    ) -> String {
        let v: Vec<String> = ops.iter().map(|o| self.operand(did, body, o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, did: DefId, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(o) => format!("[\"use\",{}]", self.operand(did, body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(did, body, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    _ => "oth",
                };
                format!("[\"ref\",\"{}\",{}]", k, self.place(body, p))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(body, self.tcx).to_string();
                let t = self.ty(t);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(did, body, o),
                    t,
                    esc(&ft)
                )
            }
            Rvalue::BinaryOp(b, l, r) | Rvalue::CheckedBinaryOp(b, l, r) => format!(
                "[\"{}\",\"{:?}\",{},{}]",
                if let Rvalue::BinaryOp(..) = rv { "bin" } else { "cbin" },
                b,
                self.operand(did, body, l),
                self.operand(did, body, r)
            ),
            Rvalue::NullaryOp(n, t) => {
                let t = self.ty(t);
                format!("[\"nullary\",\"{:?}\",{}]", n, t)
            }
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",\"{:?}\",{}]", u, self.operand(did, body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let own = match t.sty {
                    ty::Adt(def, _) => {
                        self.note_adt(def);
                        self.path(def.did)
                    }
                    _ => t.to_string(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), esc(&own))
            }
            Rvalue::Aggregate(k, ops) => {
                let a = self.operands(did, body, ops);
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(t);
                        format!("[\"agg\",\"array\",{},{}]", t, a)
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", a),
                    AggregateKind::Adt(def, v, _, _, act) => {
                        self.note_adt(def);
                        let names: Vec<String> = match act {
                            Some(i) => vec![esc(
                                &def.variants[*v].fields[*i].ident.name.as_str(),
                            )],
                            None => def.variants[*v]
                                .fields
                                .iter()
                                .map(|f| esc(&f.ident.name.as_str()))
                                .collect(),
                        };
                        format!(
                            "[\"agg\",\"adt\",{},{},{},[{}]]",
                            esc(&self.path(def.did)),
                            a,
                            esc(&def.variants[*v].ident.name.as_str()),
                            names.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", esc(&self.path(*d)), a)
                    }
                    AggregateKind::Generator(d, ..) => {
                        format!("[\"agg\",\"generator\",{},{}]", esc(&self.path(*d)), a)
                    }
                }
            }
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>, o: &mut String) {
        let _ = write!(o, "\"args\":{},\"locals\":[", body.arg_count);
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let t = self.ty(d.ty);
            match d.name {
                Some(n) => {
                    let _ = write!(o, "[{},{}]", t, esc(&n.as_str()));
                }
                None => {
                    let _ = write!(o, "[{}]", t);
                }
            }
        }
        o.push_str("],\"blocks\":[");
        for (i, bb) in body.basic_blocks().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = (&b.0, &b.1);
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, p),
                            self.rvalue(did, body, rv),
                            self.span(st.source_info.span)
                        )
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let t = place.ty(body, self.tcx).ty;
                        let nm = match t.sty {
                            ty::Adt(def, _) => def.variants[*variant_index]
                                .ident
                                .name
                                .as_str()
                                .to_string(),
                            _ => String::new(),
                        };
                        format!(
                            "[\"setd\",{},{},{}]",
                            self.place(body, place),
                            esc(&nm),
                            self.span(st.source_info.span)
                        )
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbx = |b: &Option<BasicBlock>| match b {
                Some(b) => format!("{}", b.index()),
                None => "null".to_string(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt {
                    discr,
                    switch_ty,
                    values,
                    targets,
                } => {
                    let t = self.ty(switch_ty);
                    format!(
                        "[\"switch\",{},{},[{}],[{}],{}]",
                        self.operand(did, body, discr),
                        t,
                        values
                            .iter()
                            .map(|v| v.to_string())
                            .collect::<Vec<_>>()
                            .join(","),
                        targets
                            .iter()
                            .map(|v| v.index().to_string())
                            .collect::<Vec<_>>()
                            .join(","),
                        sp
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".to_string(),
                TerminatorKind::Abort => "[\"abort\"]".to_string(),
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop {
                    location,
                    target,
                    unwind,
                } => {
                    let t = location.ty(body, self.tcx).ty;
                    let t = self.ty(t);
                    format!(
                        "[\"drop\",{},{},{},{},{}]",
                        self.place(body, location),
                        target.index(),
                        bbx(unwind),
                        t,
                        sp
                    )
                }
                TerminatorKind::DropAndReplace {
                    location,
                    value,
                    target,
                    unwind,
                } => format!(
                    "[\"dropreplace\",{},{},{},{},{}]",
                    self.place(body, location),
                    self.operand(did, body, value),
                    target.index(),
                    bbx(unwind),
                    sp
                ),
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    cleanup,
                    ..
                } => {
                    let (dp, db) = match destination {
                        Some((p, b)) => (self.place(body, p), format!("{}", b.index())),
                        None => ("null".to_string(), "null".to_string()),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        self.operand(did, body, func),
                        self.operands(did, body, args),
                        dp,
                        db,
                        bbx(cleanup),
                        sp
                    )
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    msg,
                    target,
                    cleanup,
                } => format!(
                    "[\"assert\",{},{},{},{},{},{}]",
                    self.operand(did, body, cond),
                    expected,
                    esc(&format!("{:?}", msg)),
                    target.index(),
                    bbx(cleanup),
                    sp
                ),
                TerminatorKind::FalseEdges { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                _ => "[\"unreachable\"]".to_string(),
            };
            o.push_str(&ts);
            o.push('}');
        }
        o.push(']');
    }
}

trait NeedsSubst {
    fn needs_subst_x(&self) -> bool;
}
impl<'tcx> NeedsSubst for Ty<'tcx> {
    fn needs_subst_x(&self) -> bool {
        use rustc::ty::TypeFoldable;
        self.needs_subst()
    }
}
trait BytesX {
    fn bytes_x(&self) -> &[u8];
}
impl BytesX for rustc::mir::interpret::Allocation {
    fn bytes_x(&self) -> &[u8] {
        let n = self.size.bytes() as usize;
        self.inspect_with_undef_and_ptr_outside_interpreter(0..n)
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis(&mut self, compiler: &interface::Compiler) -> Compilation {
        let out = self.out.clone();
        compiler.global_ctxt().unwrap().peek_mut().enter(|tcx| {
            let mut d = Dump {
                tcx,
                adts: BTreeMap::new(),
                seen: HashSet::new(),
                closures: BTreeMap::new(),
            };
            let mut o = String::from("{\"bodies\":[\n");
            let mut keys: Vec<DefId> = tcx.mir_keys(LOCAL_CRATE).iter().cloned().collect();
            keys.sort();
            let mut first = true;
            for k in keys {
                let dk = tcx.def_kind(k);
                let is_closure = tcx.is_closure(k);
                let kind = match dk {
                    _ if is_closure => "closure",
                    Some(DefKind::Fn) => "fn",
                    Some(DefKind::Method) => "method",
                    Some(DefKind::Static) => "static",
                    Some(DefKind::Const) | Some(DefKind::AssocConst) => "const",
                    Some(DefKind::Ctor(..)) => continue,
                    _ => "other",
                };
                let body = if kind == "fn" || kind == "method" || kind == "closure" {
                    tcx.optimized_mir(k)
                } else {
                    tcx.optimized_mir(k)
                };
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                let _ = write!(
                    o,
                    "{{\"path\":{},\"kind\":\"{}\",\"span\":{},",
                    esc(&d.path(k)),
                    kind,
                    d.span(body.span)
                );
                if kind == "method" {
                    if let Some(ai) = tcx.opt_associated_item(k) {
                        let _ = write!(o, "\"name\":{},", esc(&ai.ident.name.as_str()));
                        if let Some(im) = tcx.impl_of_method(k) {
                            let st = tcx.type_of(im);
                            let _ = write!(o, "\"self\":{},", d.ty(st));
                            if let Some(tr) = tcx.impl_trait_ref(im) {
                                let _ = write!(
                                    o,
                                    "\"trait\":{},",
                                    esc(&d.path(tr.def_id))
                                );
                            }
                        } else if let Some(tr) = tcx.trait_of_item(k) {
                            let _ = write!(o, "\"intrait\":{},", esc(&d.path(tr)));
                        }
                    }
                }
                if is_closure {
                    let _ = write!(
                        o,
                        "\"parent\":{},",
                        esc(&d.path(tcx.closure_base_def_id(k)))
                    );
                    let uv: Vec<String> = body
                        .__upvar_debuginfo_codegen_only_do_not_use
                        .iter()
                        .map(|u| esc(&u.debug_name.as_str()))
                        .collect();
                    let _ = write!(o, "\"upvars\":[{}],", uv.join(","));
                }
                d.body(k, &body, &mut o);
                o.push_str(",\"promoted\":[");
                let pm = tcx.promoted_mir(k);
                for (i, pb) in pm.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('{');
                    d.body(k, pb, &mut o);
                    o.push('}');
                }
                o.push_str("]}");
            }
            o.push_str("\n],\"adts\":{");
            // every local ADT, even if unused
            for it in tcx.hir().krate().items.values() {
                let did = tcx.hir().local_def_id(it.hir_id);
                match tcx.def_kind(did) {
                    Some(DefKind::Struct) | Some(DefKind::Enum) => {
                        let def = tcx.adt_def(did);
                        d.note_adt(def);
                    }
                    _ => {}
                }
            }
            first = true;
            for (k, v) in d.adts.iter() {
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                let _ = write!(o, "{}:{}", esc(k), v);
            }
            o.push_str("},\"closures\":{");
            first = true;
            for (k, v) in d.closures.iter() {
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                let _ = write!(o, "{}:{}", esc(k), esc(v));
            }
            o.push_str("},\"impls\":[");
            first = true;
            let tis: Vec<_> = tcx
                .hir()
                .krate()
                .trait_impls
                .iter()
                .map(|(a, b)| (*a, b.clone()))
                .collect();
            for (tr, impls) in tis {
                for h in impls {
                    let id = tcx.hir().local_def_id(h);
                    if !first {
                        o.push_str(",\n");
                    }
                    first = false;
                    let st = tcx.type_of(id);
                    let _ = write!(
                        o,
                        "{{\"trait\":{},\"self\":{},\"items\":{{",
                        esc(&d.path(tr)),
                        esc(&st.to_string())
                    );
                    let mut f2 = true;
                    for ai in tcx.associated_items(id) {
                        if !f2 {
                            o.push(',');
                        }
                        f2 = false;
                        let _ = write!(
                            o,
                            "{}:{}",
                            esc(&ai.ident.name.as_str()),
                            esc(&d.path(ai.def_id))
                        );
                    }
                    o.push_str("}}");
                }
            }
            o.push_str("]}\n");
            std::fs::write(&out, o).expect("write facts");
        });
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let crate_name = std::env::var("FACTS_CRATE").unwrap_or_default();
    let dir = std::env::var("FACTS_DIR").unwrap_or_default();
    let mut name = "";
    let mut ctype = "";
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = &w[1];
        }
        if w[0] == "--crate-type" && ctype.is_empty() {
            ctype = &w[1];
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    if name == crate_name && !is_test && !dir.is_empty() && !crate_name.is_empty() {
        let out = format!("{}/{}.json", dir, ctype);
        let r = rustc_driver::catch_fatal_errors(|| {
            rustc_driver::run_compiler(&args[1..], &mut Cb { out }, None, None)
        });
        let ok = match r {
            Ok(Ok(_)) => true,
            _ => false,
        };
        std::process::exit(if ok { 0 } else { 1 });
    }
    let st = std::process::Command::new(&args[1])
        .args(&args[2..])
        .status()
        .expect("rustc");
    std::process::exit(st.code().unwrap_or(1));
}
