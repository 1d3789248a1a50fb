//! rvc front end: parses the real Rust sources with `syn` and prints a JSON AST.
//! Nothing is rewritten: what is dropped is listed in DESIGN.md (cfg(test) items, doc
//! attributes, lifetimes, where clauses).
use std::{env, fs};

use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value as J};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn line(s: &impl Spanned) -> J {
    json!(s.span().start().line)
}

fn tokens(ts: TokenStream) -> J {
    let mut out = vec![];
    for t in ts {
        out.push(match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => "(",
                    proc_macro2::Delimiter::Brace => "{",
                    proc_macro2::Delimiter::Bracket => "[",
                    proc_macro2::Delimiter::None => "",
                };
                json!(["g", d, tokens(g.stream())])
            }
            TokenTree::Ident(i) => json!(["i", i.to_string()]),
            TokenTree::Punct(p) => json!(["p", p.as_char().to_string(), p.spacing() == proc_macro2::Spacing::Joint]),
            TokenTree::Literal(l) => json!(["l", l.to_string()]),
        });
    }
    J::Array(out)
}

fn attrs(a: &[Attribute]) -> J {
    J::Array(
        a.iter()
            .filter(|a| !a.path().is_ident("doc"))
            .map(|a| json!(a.meta.to_token_stream().to_string()))
            .collect(),
    )
}

fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| {
        (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
            || a.path().is_ident("test")
    })
}

fn gargs(a: &PathArguments) -> J {
    match a {
        PathArguments::None => J::Null,
        PathArguments::AngleBracketed(ab) => J::Array(
            ab.args
                .iter()
                .filter_map(|g| match g {
                    GenericArgument::Type(t) => Some(ty(t)),
                    GenericArgument::AssocType(t) => Some(json!({"k":"assoc","name":t.ident.to_string(),"ty":ty(&t.ty)})),
                    GenericArgument::Const(e) => Some(json!({"k":"const","e":expr(e)})),
                    _ => None,
                })
                .collect(),
        ),
        PathArguments::Parenthesized(p) => json!([{"k":"fnargs","ins":p.inputs.iter().map(ty).collect::<Vec<_>>(),"out":match &p.output {ReturnType::Default=>J::Null, ReturnType::Type(_,t)=>ty(t)}}]),
    }
}

fn path(p: &Path, q: &Option<QSelf>) -> J {
    json!({"segs": p.segments.iter().map(|s| json!([s.ident.to_string(), gargs(&s.arguments)])).collect::<Vec<_>>(),
           "q": q.as_ref().map(|q| json!({"ty":ty(&q.ty),"pos":q.position})).unwrap_or(J::Null),
           "abs": p.leading_colon.is_some()})
}

fn bounds(b: &Punctuated<TypeParamBound, Token![+]>) -> J {
    J::Array(
        b.iter()
            .filter_map(|b| match b {
                TypeParamBound::Trait(t) => Some(path(&t.path, &None)),
                _ => None,
            })
            .collect(),
    )
}

fn ty(t: &Type) -> J {
    match t {
        Type::Path(p) => json!({"k":"path","p":path(&p.path,&p.qself)}),
        Type::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Tuple(t) => json!({"k":"tuple","ts":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Slice(s) => json!({"k":"slice","t":ty(&s.elem)}),
        Type::Array(s) => json!({"k":"array","t":ty(&s.elem),"len":expr(&s.len)}),
        Type::ImplTrait(i) => json!({"k":"impl","b":bounds(&i.bounds)}),
        Type::TraitObject(i) => json!({"k":"dyn","b":bounds(&i.bounds)}),
        Type::Infer(_) => json!({"k":"infer"}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Never(_) => json!({"k":"never"}),
        _ => json!({"k":"other","s":t.to_token_stream().to_string()}),
    }
}

fn lit(l: &Lit) -> J {
    match l {
        Lit::Str(s) => json!({"k":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"k":"bytestr","v":s.value()}),
        Lit::Byte(s) => json!({"k":"int","v":s.value().to_string(),"suf":"u8"}),
        Lit::Char(c) => json!({"k":"char","v":c.value().to_string()}),
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Float(i) => json!({"k":"float","v":i.base10_digits()}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value}),
        _ => json!({"k":"other"}),
    }
}

fn pat(p: &Pat) -> J {
    match p {
        Pat::Ident(i) => json!({"k":"ident","name":i.ident.to_string(),"ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),"sub":i.subpat.as_ref().map(|s| pat(&s.1))}),
        Pat::Wild(_) => json!({"k":"wild"}),
        Pat::Rest(_) => json!({"k":"rest"}),
        Pat::Lit(l) => json!({"k":"lit","l":lit(&l.lit)}),
        Pat::Path(p) => json!({"k":"path","p":path(&p.path,&p.qself)}),
        Pat::TupleStruct(t) => json!({"k":"tstruct","p":path(&t.path,&t.qself),"ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(t) => json!({"k":"struct","p":path(&t.path,&t.qself),"rest":t.rest.is_some(),"fs":t.fields.iter().map(|f| json!([member(&f.member), pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Tuple(t) => json!({"k":"tuple","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(t) => json!({"k":"slice","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Or(o) => json!({"k":"or","ps":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Reference(r) => json!({"k":"ref","p":pat(&r.pat)}),
        Pat::Paren(r) => pat(&r.pat),
        Pat::Type(t) => json!({"k":"typed","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        _ => json!({"k":"other","s":p.to_token_stream().to_string()}),
    }
}

fn member(m: &Member) -> J {
    match m {
        Member::Named(i) => json!(i.to_string()),
        Member::Unnamed(i) => json!(i.index.to_string()),
    }
}

struct Matches(Expr, Pat, Option<Expr>);
impl Parse for Matches {
    fn parse(i: ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(Self(e, p, g))
    }
}
struct VecRep(Expr, Expr);
impl Parse for VecRep {
    fn parse(i: ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(Self(e, i.parse()?))
    }
}
struct NamedArgs(Vec<(Option<Ident>, Expr)>);
impl Parse for NamedArgs {
    fn parse(i: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                let n: Ident = i.parse()?;
                i.parse::<Token![=]>()?;
                v.push((Some(n), i.parse()?));
            } else {
                v.push((None, i.parse()?));
            }
            if i.is_empty() {
                break;
            }
            i.parse::<Token![,]>()?;
        }
        Ok(Self(v))
    }
}

/// `{ "key": value, .. }`, as the request macros take it: values are objects or expressions
struct Obj(J);
impl Parse for Obj {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let c;
        syn::braced!(c in i);
        let mut v = vec![];
        while !c.is_empty() {
            let k: syn::LitStr = c.parse()?;
            c.parse::<Token![:]>()?;
            let x = if c.peek(syn::token::Brace) { json!({"obj": c.parse::<Obj>()?.0}) } else { json!({"e": expr(&c.parse::<Expr>()?)}) };
            v.push(json!([k.value(), x]));
            if c.is_empty() {
                break;
            }
            c.parse::<Token![,]>()?;
        }
        Ok(Self(J::Array(v)))
    }
}

fn mac(m: &Macro) -> J {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let mut o = json!({"k":"macro","name":name,"p":path(&m.path,&None),"line":line(m)});
    let ts = m.tokens.clone();
    if name == "matches" {
        if let Ok(x) = parse2::<Matches>(ts.clone()) {
            o["m"] = json!({"e":expr(&x.0),"p":pat(&x.1),"g":x.2.as_ref().map(expr)});
        }
    } else if name == "vec" {
        if let Ok(x) = parse2::<VecRep>(ts.clone()) {
            o["rep"] = json!([expr(&x.0), expr(&x.1)]);
            return o;
        }
    }
    if name.ends_with("_request") {
        if let Ok(x) = parse2::<Obj>(ts.clone()) {
            o["obj"] = x.0;
        }
    }
    if name != "quote" && name != "json" && name != "macro_rules" {
        if let Ok(x) = parse2::<NamedArgs>(ts.clone()) {
            o["args"] = J::Array(x.0.iter().map(|(n, e)| json!([n.as_ref().map(|n| n.to_string()), expr(e)])).collect());
        } else if let Ok(x) = Block::parse_within.parse2(ts.clone()) {
            o["stmts"] = J::Array(x.iter().map(stmt).collect());
        }
    }
    o["raw"] = tokens(ts);
    o
}

fn oe(e: &Option<Box<Expr>>) -> J {
    e.as_ref().map(|e| expr(e)).unwrap_or(J::Null)
}

fn expr(e: &Expr) -> J {
    let mut o = match e {
        Expr::Array(a) => json!({"k":"array","es":a.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Async(a) => json!({"k":"block","b":block(&a.block)}),
        Expr::Await(a) => json!({"k":"await","e":expr(&a.base)}),
        Expr::Binary(b) => json!({"k":"bin","op":b.op.to_token_stream().to_string(),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Block(b) => json!({"k":"block","b":block(&b.block),"label":b.label.as_ref().map(|l| l.name.to_string())}),
        Expr::Break(b) => json!({"k":"break","label":b.label.as_ref().map(|l| l.to_string()),"e":oe(&b.expr)}),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"t":ty(&c.ty)}),
        Expr::Closure(c) => json!({"k":"closure","ps":c.inputs.iter().map(pat).collect::<Vec<_>>(),"body":expr(&c.body),"move":c.capture.is_some()}),
        Expr::Const(c) => json!({"k":"block","b":block(&c.block)}),
        Expr::Continue(c) => json!({"k":"continue","label":c.label.as_ref().map(|l| l.to_string())}),
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"m":member(&f.member)}),
        Expr::ForLoop(f) => json!({"k":"for","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"label":f.label.as_ref().map(|l| l.name.to_string())}),
        Expr::Group(g) => return expr(&g.expr),
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"f":i.else_branch.as_ref().map(|e| expr(&e.1))}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::Infer(_) => json!({"k":"infer"}),
        Expr::Let(l) => json!({"k":"let","p":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Lit(l) => json!({"k":"lit","l":lit(&l.lit)}),
        Expr::Loop(l) => json!({"k":"loop","b":block(&l.body),"label":l.label.as_ref().map(|l| l.name.to_string())}),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|g| expr(&g.1)),"b":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::MethodCall(m) => json!({"k":"mcall","e":expr(&m.receiver),"m":m.method.to_string(),"tf":m.turbofish.as_ref().map(|t| J::Array(t.args.iter().filter_map(|g| if let GenericArgument::Type(t)=g {Some(ty(t))} else {None}).collect())),"args":m.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Paren(p) => return expr(&p.expr),
        Expr::Path(p) => json!({"k":"path","p":path(&p.path,&p.qself)}),
        Expr::Range(r) => json!({"k":"range","lo":oe(&r.start),"hi":oe(&r.end),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"n":expr(&r.len)}),
        Expr::Return(r) => json!({"k":"return","e":oe(&r.expr)}),
        Expr::Struct(s) => json!({"k":"struct","p":path(&s.path,&s.qself),"fs":s.fields.iter().map(|f| json!([member(&f.member), expr(&f.expr)])).collect::<Vec<_>>(),"rest":oe(&s.rest)}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        Expr::Tuple(t) => json!({"k":"tuple","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Unary(u) => json!({"k":"un","op":u.op.to_token_stream().to_string(),"e":expr(&u.expr)}),
        Expr::Unsafe(u) => json!({"k":"block","b":block(&u.block),"unsafe":true}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),"label":w.label.as_ref().map(|l| l.name.to_string())}),
        _ => json!({"k":"other","s":e.to_token_stream().to_string()}),
    };
    o["line"] = line(e);
    o
}

fn stmt(s: &Stmt) -> J {
    match s {
        Stmt::Local(l) => json!({"k":"let","p":pat(&l.pat),"e":l.init.as_ref().map(|i| expr(&i.expr)),"els":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| expr(&d.1))),"line":line(l)}),
        Stmt::Item(i) => json!({"k":"item","i":item(i)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some()}),
        Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac),"semi":m.semi_token.is_some()}),
    }
}

fn block(b: &Block) -> J {
    J::Array(b.stmts.iter().map(stmt).collect())
}

fn generics(g: &Generics) -> J {
    let mut m = serde_json::Map::new();
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            m.insert(t.ident.to_string(), bounds(&t.bounds));
        }
    }
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                let n = t.bounded_ty.to_token_stream().to_string();
                if let Some(J::Array(a)) = m.get_mut(&n) {
                    if let J::Array(b) = bounds(&t.bounds) {
                        a.extend(b);
                    }
                }
            }
        }
    }
    J::Object(m)
}

fn sig(s: &Signature) -> J {
    json!({"name":s.ident.to_string(),"async":s.asyncness.is_some(),"gen":generics(&s.generics),
        "ins":s.inputs.iter().map(|i| match i {
            FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
            FnArg::Typed(t) => json!({"p":pat(&t.pat),"t":ty(&t.ty)}),
        }).collect::<Vec<_>>(),
        "out":match &s.output {ReturnType::Default=>J::Null, ReturnType::Type(_,t)=>ty(t)}})
}

fn fields(f: &Fields) -> J {
    match f {
        Fields::Named(n) => json!({"k":"named","fs":n.named.iter().map(|f| json!({"name":f.ident.as_ref().unwrap().to_string(),"t":ty(&f.ty),"attrs":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Fields::Unnamed(n) => json!({"k":"tuple","fs":n.unnamed.iter().enumerate().map(|(i,f)| json!({"name":i.to_string(),"t":ty(&f.ty),"attrs":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Fields::Unit => json!({"k":"unit","fs":[]}),
    }
}

fn use_tree(t: &UseTree, pre: &[String], out: &mut Vec<J>) {
    match t {
        UseTree::Path(p) => {
            let mut v = pre.to_vec();
            v.push(p.ident.to_string());
            use_tree(&p.tree, &v, out);
        }
        UseTree::Name(n) => {
            let mut v = pre.to_vec();
            let id = n.ident.to_string();
            if id == "self" {
                out.push(json!([v.last().unwrap().clone(), v]));
            } else {
                v.push(id.clone());
                out.push(json!([id, v]));
            }
        }
        UseTree::Rename(r) => {
            let mut v = pre.to_vec();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push(json!([r.rename.to_string(), v]));
        }
        UseTree::Glob(_) => out.push(json!(["*", pre])),
        UseTree::Group(g) => {
            for t in &g.items {
                use_tree(t, pre, out);
            }
        }
    }
}

fn func(s: &Signature, b: &Block, a: &[Attribute], sp: &impl Spanned) -> J {
    json!({"k":"fn","sig":sig(s),"body":block(b),"attrs":attrs(a),"line":line(sp),"end":sp.span().end().line,"ntok":b.to_token_stream().into_iter().count()})
}

fn item(i: &Item) -> J {
    match i {
        Item::Fn(f) => {
            if is_test(&f.attrs) {
                return J::Null;
            }
            func(&f.sig, &f.block, &f.attrs, f)
        }
        Item::Struct(s) => json!({"k":"struct","name":s.ident.to_string(),"gen":generics(&s.generics),"f":fields(&s.fields),"attrs":attrs(&s.attrs),"line":line(s)}),
        Item::Enum(s) => json!({"k":"enum","name":s.ident.to_string(),"gen":generics(&s.generics),"vs":s.variants.iter().map(|v| json!({"name":v.ident.to_string(),"f":fields(&v.fields),"attrs":attrs(&v.attrs),"disc":v.discriminant.as_ref().map(|d| expr(&d.1))})).collect::<Vec<_>>(),"attrs":attrs(&s.attrs),"line":line(s)}),
        Item::Impl(im) => {
            if is_test(&im.attrs) {
                return J::Null;
            }
            let mut its = vec![];
            for it in &im.items {
                match it {
                    ImplItem::Fn(f) if !is_test(&f.attrs) => its.push(func(&f.sig, &f.block, &f.attrs, f)),
                    ImplItem::Const(c) => its.push(json!({"k":"const","name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)})),
                    ImplItem::Type(t) => its.push(json!({"k":"type","name":t.ident.to_string(),"t":ty(&t.ty)})),
                    _ => {}
                }
            }
            json!({"k":"impl","gen":generics(&im.generics),"ty":ty(&im.self_ty),"trait":im.trait_.as_ref().map(|t| path(&t.1,&None)),"items":its,"line":line(im)})
        }
        Item::Trait(t) => {
            let mut its = vec![];
            for it in &t.items {
                match it {
                    TraitItem::Fn(f) => its.push(json!({"k":"fn","sig":sig(&f.sig),"body":f.default.as_ref().map(block),"attrs":attrs(&f.attrs),"line":line(f)})),
                    TraitItem::Type(ty_) => its.push(json!({"k":"type","name":ty_.ident.to_string()})),
                    _ => {}
                }
            }
            json!({"k":"trait","name":t.ident.to_string(),"super":bounds(&t.supertraits),"gen":generics(&t.generics),"items":its})
        }
        Item::Mod(m) => {
            if is_test(&m.attrs) {
                return J::Null;
            }
            json!({"k":"mod","name":m.ident.to_string(),"items":m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())})
        }
        Item::Use(u) => {
            let mut out = vec![];
            use_tree(&u.tree, &[], &mut out);
            json!({"k":"use","us":out})
        }
        Item::Const(c) => json!({"k":"const","name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"const","name":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Type(t) => json!({"k":"type","name":t.ident.to_string(),"gen":generics(&t.generics),"t":ty(&t.ty)}),
        Item::Macro(m) => json!({"k":"macrodef","name":m.ident.as_ref().map(|i| i.to_string()),"raw":tokens(m.mac.tokens.clone())}),
        _ => J::Null,
    }
}

/// args: either `expr` (parse an expression from stdin) or a list of files.
fn main() {
    let args: Vec<String> = env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("--expr") {
        let src = std::io::read_to_string(std::io::stdin()).unwrap();
        let mut out = vec![];
        for s in src.split('\u{1}') {
            out.push(match parse_str::<Expr>(s) {
                Ok(e) => expr(&e),
                Err(e) => json!({"error": e.to_string()}),
            });
        }
        println!("{}", J::Array(out));
        return;
    }
    let mut out = serde_json::Map::new();
    for a in args {
        let src = fs::read_to_string(&a).unwrap_or_default();
        let v = match parse_file(&src) {
            Ok(f) => json!({"items": f.items.iter().map(item).filter(|x| !x.is_null()).collect::<Vec<_>>()}),
            Err(e) => json!({"error": e.to_string(), "items": []}),
        };
        out.insert(a, v);
    }
    println!("{}", J::Object(out));
}
