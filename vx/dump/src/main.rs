//! vxdump FILE...: parse Rust source with syn and print, as JSON, where its items, functions,
//! loops, closures, calls and method calls are (byte ranges). It changes nothing; the
//! contract assembler (../vx.py) edits the original text using these ranges.
use proc_macro2::Span;
use quote::ToTokens;
use std::fmt::Write;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"'); o
}
fn rg(s: Span) -> String { let r = s.byte_range(); format!("[{},{}]", r.start, r.end) }
fn tk<T: ToTokens>(t: &T) -> String { esc(&t.to_token_stream().to_string()) }
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn strip(s: Span) -> Span { s }

struct Body { loops: Vec<String>, closures: Vec<String>, calls: Vec<String>, mcalls: Vec<String>, macros: Vec<String>, casts: Vec<String>, locals: Vec<String>, ops: Vec<String>, rets: Vec<String>, depth: usize, cl: usize, unsafes: Vec<String>, opassign: Vec<String> }
fn sty(e: &syn::Expr) -> String {
    // structured expression, for closure bodies: ["kind", ...]
    use syn::Expr::*;
    match e {
        Binary(b) => format!("[\"bin\",{},{},{}]", tk(&b.op), sty(&b.left), sty(&b.right)),
        Unary(u) => format!("[\"un\",{},{}]", tk(&u.op), sty(&u.expr)),
        Paren(p) => sty(&p.expr),
        Group(p) => sty(&p.expr),
        Path(p) => format!("[\"path\",{}]", tk(p)),
        Lit(l) => format!("[\"lit\",{}]", tk(l)),
        Tuple(t) => format!("[\"tup\",{}]", arr(t.elems.iter().map(sty).collect())),
        MethodCall(m) => format!("[\"mcall\",{},{},{}]", tk(&m.method), sty(&m.receiver), arr(m.args.iter().map(sty).collect())),
        Call(c) => format!("[\"call\",{},{}]", sty(&c.func), arr(c.args.iter().map(sty).collect())),
        If(i) => match (&i.else_branch, i.then_branch.stmts.as_slice()) {
            (Some((_, el)), [syn::Stmt::Expr(t, None)]) => format!("[\"if\",{},{},{}]", sty(&i.cond), sty(t), sty(el)),
            _ => format!("[\"other\",{}]", tk(e)),
        },
        Block(b) => match b.block.stmts.as_slice() { [syn::Stmt::Expr(t, None)] => sty(t), _ => format!("[\"other\",{}]", tk(e)) },
        Unsafe(b) => match b.block.stmts.as_slice() { [syn::Stmt::Expr(t, None)] => sty(t), _ => format!("[\"other\",{}]", tk(e)) },
        Index(i) => format!("[\"idx\",{},{}]", sty(&i.expr), sty(&i.index)),
        Field(f) => format!("[\"field\",{},{}]", sty(&f.base), tk(&f.member)),
        Reference(r) => format!("[\"ref\",{},{}]", r.mutability.is_some(), sty(&r.expr)),
        _ => format!("[\"other\",{}]", tk(e)),
    }
}
/// `{ *s op= x; }` or `*s op= x`
fn asg(e: &syn::Expr) -> String {
    let f = |e: &syn::Expr| -> Option<String> { if let syn::Expr::Binary(b) = e { let o = b.op.to_token_stream().to_string(); if o.ends_with('=') && !["==", "<=", ">=", "!="].contains(&o.as_str()) { if let syn::Expr::Unary(u) = &*b.left { if matches!(u.op, syn::UnOp::Deref(_)) { return Some(format!("[{},{},{}]", esc(&o), sty(&u.expr), sty(&b.right))); } } } } None };
    match e { syn::Expr::Block(b) => match b.block.stmts.as_slice() { [syn::Stmt::Expr(t, _)] => f(t).unwrap_or("null".into()), _ => "null".into() }, e => f(e).unwrap_or("null".into()) }
}
impl<'a> Visit<'a> for Body {
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.loops.push(format!("{{\"kind\":\"for\",\"span\":{},\"pat\":{},\"pattext\":{},\"expr\":{},\"text\":{},\"body\":{},\"depth\":{}}}", rg(l.span()), rg(l.pat.span()), tk(&l.pat), rg(l.expr.span()), tk(&l.expr), rg(l.body.span()), self.depth));
        self.depth += 1; visit::visit_expr_for_loop(self, l); self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.loops.push(format!("{{\"kind\":\"while\",\"span\":{},\"expr\":{},\"text\":{},\"body\":{},\"depth\":{}}}", rg(l.span()), rg(l.cond.span()), tk(&l.cond), rg(l.body.span()), self.depth));
        self.depth += 1; visit::visit_expr_while(self, l); self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.loops.push(format!("{{\"kind\":\"loop\",\"span\":{},\"text\":\"\",\"body\":{},\"depth\":{}}}", rg(l.span()), rg(l.body.span()), self.depth));
        self.depth += 1; visit::visit_expr_loop(self, l); self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let ins: Vec<String> = c.inputs.iter().map(|p| { let (pt, ty) = match p { syn::Pat::Type(t) => (tk(&t.pat), tk(&t.ty)), p => (tk(p), "null".into()) }; format!("{{\"span\":{},\"pat\":{},\"ty\":{},\"simple\":{}}}", rg(p.span()), pt, ty, matches!(p, syn::Pat::Ident(_) | syn::Pat::Wild(_)) ) }).collect();
        let ret = match &c.output { syn::ReturnType::Default => "null".into(), syn::ReturnType::Type(_, t) => tk(t) };
        self.closures.push(format!("{{\"span\":{},\"inputs\":{},\"ret\":{},\"body\":{},\"isblock\":{},\"tree\":{},\"assign\":{},\"head\":[{},{}],\"nest\":{}}}", rg(c.span()), arr(ins), ret, rg(c.body.span()), matches!(&*c.body, syn::Expr::Block(_)), sty(&c.body), asg(&c.body), c.or1_token.span().byte_range().start, c.or2_token.span().byte_range().end, self.cl));
        self.cl += 1; visit::visit_expr_closure(self, c); self.cl -= 1;
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let args: Vec<String> = c.args.iter().map(|a| format!("{{\"span\":{},\"text\":{}}}", rg(a.span()), tk(a))).collect();
        self.calls.push(format!("{{\"span\":{},\"func\":{},\"fspan\":{},\"args\":{}}}", rg(c.span()), tk(&c.func), rg(c.func.span()), arr(args)));
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let args: Vec<String> = c.args.iter().map(|a| format!("{{\"span\":{},\"text\":{}}}", rg(a.span()), tk(a))).collect();
        self.mcalls.push(format!("{{\"span\":{},\"name\":{},\"nspan\":{},\"recv\":{},\"recvtext\":{},\"args\":{}}}", rg(c.span()), esc(&c.method.to_string()), rg(c.method.span()), rg(c.receiver.span()), tk(&c.receiver), arr(args)));
        visit::visit_expr_method_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) { self.macros.push(format!("{{\"span\":{},\"name\":{},\"tokens\":{}}}", rg(m.span()), tk(&m.path), esc(&m.tokens.to_string()))); }
    fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) { self.casts.push(format!("{{\"span\":{},\"text\":{}}}", rg(c.span()), tk(c))); visit::visit_expr_cast(self, c); }
    fn visit_local(&mut self, l: &'a syn::Local) { self.locals.push(format!("{{\"span\":{},\"pat\":{},\"depth\":{}}}", rg(l.span()), tk(&l.pat), self.depth)); visit::visit_local(self, l); }
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) { self.rets.push(rg(r.span())); visit::visit_expr_return(self, r); }
    fn visit_expr_unsafe(&mut self, r: &'a syn::ExprUnsafe) { self.unsafes.push(rg(r.span())); visit::visit_expr_unsafe(self, r); }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let o = b.op.to_token_stream().to_string();
        if o.ends_with('=') && !["==", "<=", ">=", "!="].contains(&o.as_str()) { self.opassign.push(format!("{{\"span\":{},\"op\":{},\"left\":{},\"right\":{}}}", rg(b.span()), esc(&o), rg(b.left.span()), rg(b.right.span()))); }
        else { self.ops.push(format!("{{\"span\":{},\"op\":{}}}", rg(b.span()), esc(&o))); }
        visit::visit_expr_binary(self, b);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn attrs(a: &[syn::Attribute]) -> String { arr(a.iter().map(|x| format!("{{\"span\":{},\"text\":{}}}", rg(x.span()), tk(x))).collect()) }
fn func(sig: &syn::Signature, block: Option<&syn::Block>, span: Span, at: &[syn::Attribute], vis: Option<&syn::Visibility>) -> String {
    let mut b = Body { loops: vec![], closures: vec![], calls: vec![], mcalls: vec![], macros: vec![], casts: vec![], locals: vec![], ops: vec![], rets: vec![], depth: 0, cl: 0, unsafes: vec![], opassign: vec![] };
    let mut stmts = vec![]; let mut tail = "null".to_string();
    if let Some(bl) = block {
        b.visit_block(bl);
        for (i, s) in bl.stmts.iter().enumerate() {
            stmts.push(rg(s.span()));
            if i + 1 == bl.stmts.len() { if let syn::Stmt::Expr(e, None) = s { tail = format!("{{\"span\":{},\"tree\":{}}}", rg(e.span()), sty(e)); } }
        }
    }
    let ins: Vec<String> = sig.inputs.iter().map(|i| match i {
        syn::FnArg::Receiver(r) => format!("{{\"self\":true,\"span\":{},\"text\":{}}}", rg(r.span()), tk(r)),
        syn::FnArg::Typed(t) => format!("{{\"self\":false,\"span\":{},\"pat\":{},\"simple\":{},\"name\":{},\"mut\":{},\"ty\":{}}}", rg(t.span()), tk(&t.pat), matches!(&*t.pat, syn::Pat::Ident(_)), match &*t.pat { syn::Pat::Ident(i) => esc(&i.ident.to_string()), _ => "null".into() }, match &*t.pat { syn::Pat::Ident(i) => i.mutability.is_some(), _ => false }, tk(&t.ty)),
    }).collect();
    let ret = match &sig.output { syn::ReturnType::Default => "null".into(), syn::ReturnType::Type(_, t) => format!("{{\"span\":{},\"text\":{}}}", rg(t.span()), tk(t)) };
    let end = match (&sig.generics.where_clause, &sig.output) { (Some(w), _) if !w.predicates.is_empty() => w.span().byte_range().end, (_, syn::ReturnType::Type(_, t)) => t.span().byte_range().end, _ => sig.paren_token.span.close().byte_range().end };
    format!("{{\"kind\":\"fn\",\"name\":{},\"span\":{},\"attrs\":{},\"vis\":{},\"unsafe\":{},\"generics\":{},\"paren\":{},\"inputs\":{},\"ret\":{},\"where\":{},\"sigend\":{},\"body\":{},\"stmts\":{},\"tail\":{},\"loops\":{},\"closures\":{},\"calls\":{},\"mcalls\":{},\"macros\":{},\"casts\":{},\"locals\":{},\"rets\":{},\"unsafes\":{},\"opassign\":{},\"ops\":{}}}",
        esc(&sig.ident.to_string()), rg(strip(span)), attrs(at), vis.map(|v| rg(v.span())).unwrap_or("null".into()), sig.unsafety.is_some(), tk(&sig.generics), rg(sig.paren_token.span.join()), arr(ins), ret,
        sig.generics.where_clause.as_ref().map(|w| rg(w.span())).unwrap_or("null".into()), end,
        block.map(|x| rg(x.span())).unwrap_or("null".into()), arr(stmts), tail, arr(b.loops), arr(b.closures), arr(b.calls), arr(b.mcalls), arr(b.macros), arr(b.casts), arr(b.locals), arr(b.rets), arr(b.unsafes), arr(b.opassign), arr(b.ops))
}
fn gen(g: &syn::Generics) -> String {
    let ps: Vec<String> = g.params.iter().map(|p| tk(p)).collect();
    format!("{{\"params\":{},\"where\":{},\"names\":{}}}", arr(ps), g.where_clause.as_ref().map(|w| tk(w)).unwrap_or("null".into()), arr(g.params.iter().map(|p| match p { syn::GenericParam::Type(t) => esc(&t.ident.to_string()), syn::GenericParam::Const(t) => esc(&t.ident.to_string()), syn::GenericParam::Lifetime(t) => esc(&t.lifetime.to_string()) }).collect()))
}
fn item(i: &syn::Item) -> String {
    use syn::Item::*;
    match i {
        Fn(f) => func(&f.sig, Some(&f.block), f.span(), &f.attrs, Some(&f.vis)),
        Impl(m) => {
            let its: Vec<String> = m.items.iter().map(|x| match x {
                syn::ImplItem::Fn(f) => func(&f.sig, Some(&f.block), f.span(), &f.attrs, Some(&f.vis)),
                o => format!("{{\"kind\":\"other\",\"span\":{},\"text\":{}}}", rg(o.span()), tk(o)),
            }).collect();
            format!("{{\"kind\":\"impl\",\"span\":{},\"attrs\":{},\"generics\":{},\"trait\":{},\"ty\":{},\"tyspan\":{},\"brace\":{},\"items\":{}}}", rg(m.span()), attrs(&m.attrs), gen(&m.generics), m.trait_.as_ref().map(|t| tk(&t.1)).unwrap_or("null".into()), tk(&m.self_ty), rg(m.self_ty.span()), rg(m.brace_token.span.join()), arr(its))
        }
        Trait(m) => {
            let its: Vec<String> = m.items.iter().map(|x| match x {
                syn::TraitItem::Fn(f) => func(&f.sig, f.default.as_ref(), f.span(), &f.attrs, None),
                o => format!("{{\"kind\":\"other\",\"span\":{},\"text\":{}}}", rg(o.span()), tk(o)),
            }).collect();
            format!("{{\"kind\":\"trait\",\"name\":{},\"span\":{},\"attrs\":{},\"brace\":{},\"items\":{}}}", esc(&m.ident.to_string()), rg(m.span()), attrs(&m.attrs), rg(m.brace_token.span.join()), arr(its))
        }
        Struct(s) => format!("{{\"kind\":\"struct\",\"name\":{},\"span\":{},\"attrs\":{},\"fields\":{},\"text\":{}}}", esc(&s.ident.to_string()), rg(s.span()), attrs(&s.attrs), arr(s.fields.iter().map(|f| format!("{{\"vis\":{},\"span\":{}}}", rg(f.vis.span()), rg(f.span()))).collect()), tk(s)),
        Mod(m) => format!("{{\"kind\":\"mod\",\"name\":{},\"span\":{},\"attrs\":{},\"items\":{}}}", esc(&m.ident.to_string()), rg(m.span()), attrs(&m.attrs), m.content.as_ref().map(|c| arr(c.1.iter().map(item).collect())).unwrap_or("null".into())),
        Use(u) => format!("{{\"kind\":\"use\",\"span\":{},\"attrs\":{},\"text\":{}}}", rg(u.span()), attrs(&u.attrs), tk(&u.tree)),
        Macro(m) => format!("{{\"kind\":\"macro\",\"span\":{},\"attrs\":{},\"ident\":{},\"path\":{},\"tokens\":{},\"inner\":{}}}", rg(m.span()), attrs(&m.attrs), m.ident.as_ref().map(|i| esc(&i.to_string())).unwrap_or("null".into()), tk(&m.mac.path), esc(&m.mac.tokens.to_string()), { let (o, c) = match &m.mac.delimiter { syn::MacroDelimiter::Paren(p) => (p.span.open(), p.span.close()), syn::MacroDelimiter::Brace(p) => (p.span.open(), p.span.close()), syn::MacroDelimiter::Bracket(p) => (p.span.open(), p.span.close()) }; format!("[{},{}]", o.byte_range().end, c.byte_range().start) }),
        o => format!("{{\"kind\":\"other\",\"span\":{},\"text\":{}}}", rg(o.span()), tk(o)),
    }
}
fn main() {
    let mut out = vec![];
    for p in std::env::args().skip(1) {
        let s = std::fs::read_to_string(&p).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(2) });
        match syn::parse_file(&s) {
            Ok(f) => out.push(format!("{{\"file\":{},\"items\":{}}}", esc(&p), arr(f.items.iter().map(item).collect()))),
            Err(e) => out.push(format!("{{\"file\":{},\"error\":{}}}", esc(&p), esc(&e.to_string()))),
        }
    }
    println!("[{}]", out.join(",\n"));
}
