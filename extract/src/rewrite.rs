use super::*;
use std::cell::RefCell;

thread_local! {
    static INSTANCES: RefCell<Vec<Instance>> = RefCell::new(vec![]);
    static CLO: RefCell<usize> = RefCell::new(0);
}

/// A copy of a function that takes a function pointer, for one given function
pub struct Instance {
    pub name: String,
    pub f: ItemFn,
}

pub fn take_instances() -> Vec<Instance> {
    INSTANCES.with(|i| std::mem::take(&mut *i.borrow_mut()))
}

pub fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// `Box<ExtInstSet>` and `Box<ExtInst>` become opaque types
pub struct TypeRw<'a> {
    pub cx: &'a mut Ctx,
}

impl<'a> VisitMut for TypeRw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let k = ty_key(t);
        let new: Option<&str> = match k.as_str() {
            "Box<ExtInstSet>" | "Box<XSet>" => Some("XSet"),
            "Box<ExtInst>" | "Box<XInst>" => Some("XInst"),
            "ExtInst" => Some("XInst"),
            "Any" if self.cx.c["values"].as_bool() == Some(true) => Some("XAny"),
            "Op" if self.cx.c["values"].as_bool() == Some(true) => Some("XOp"),
            _ => None,
        };
        if let Some(n) = new {
            let id = format_ident!("{}", n);
            *t = parse_quote!(#id);
            self.cx.count("boxed trait object replaced by an opaque type");
        }
    }
}

fn wrap_tail(e: &mut Expr, f: &Path) {
    let blk = |b: &mut Block| {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            wrap_tail(e, f);
        }
    };
    match e {
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| wrap_tail(&mut a.body, f)),
        Expr::Block(b) => blk(&mut b.block),
        Expr::If(i) => {
            blk(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                wrap_tail(x, f);
            }
        }
        Expr::Return(_) | Expr::Verbatim(_) => {}
        _ => {
            let x = e.clone();
            *e = parse_quote!(#f(#x));
        }
    }
}

pub struct BodyRw<'a> {
    pub cx: &'a mut Ctx,
    pub key: String,
    pub module: String,
    pub sig: Signature,
    pub nested: Vec<ItemFn>,
    pub lifted: Vec<(String, ItemFn)>,
}

impl<'a> BodyRw<'a> {
    pub fn new(cx: &'a mut Ctx, key: &str, module: &str, sig: &Signature) -> BodyRw<'a> {
        BodyRw { cx, key: key.into(), module: module.into(), sig: sig.clone(), nested: vec![], lifted: vec![] }
    }

    pub fn run(&mut self, b: &mut Block) {
        self.hoist(b);
        let mut total = 0;
        for depth in 0..12 {
            let mut inl = Inliner { cx: self.cx, key: &self.key, n: 0, depth, total };
            inl.tail_block(b);
            if inl.n == 0 {
                inl.visit_block_mut(b);
            }
            total += inl.n;
            if inl.n == 0 {
                break;
            }
            self.hoist(b);
        }
        Cont { cx: self.cx }.visit_block_mut(b);
        Comb { cx: self.cx }.visit_block_mut(b);
        self.closures(b);
        Defun { cx: self.cx }.visit_block_mut(b);
        ExprRw { o: self }.visit_block_mut(b);
        self.unsize(b);
        struct C(bool);
        impl<'x> Visit<'x> for C {
            fn visit_expr_closure(&mut self, _: &'x ExprClosure) {
                self.0 = true;
            }
        }
        let mut c = C(false);
        c.visit_block(b);
        if c.0 {
            self.cx.problem(&self.key, "closure whose effect is not known to the verifier");
        }
    }

    /// A reference returned as a trait object: the coercion becomes a call
    fn unsize(&mut self, b: &mut Block) {
        let rt = self.sig.output.to_token_stream().to_string().replace(' ', "");
        let f: Path = if rt.contains("&XAny") {
            parse_quote!(::vspec::xany)
        } else if rt.contains("&XOp") {
            parse_quote!(::vspec::xop)
        } else {
            return;
        };
        self.cx.count("coercion to a trait object turned into a call");
        struct R<'x>(&'x Path);
        impl<'x> VisitMut for R<'x> {
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                if let Some(e) = &mut r.expr {
                    wrap_tail(e, self.0);
                }
            }
        }
        R(&f).visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            wrap_tail(e, &f);
        }
    }

    /// Nested functions are moved to the module
    fn hoist(&mut self, b: &mut Block) {
        struct H<'x>(&'x mut Vec<ItemFn>);
        impl<'x> VisitMut for H<'x> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut out = vec![];
                for s in b.stmts.drain(..) {
                    match s {
                        Stmt::Item(Item::Fn(f)) => self.0.push(f),
                        s => out.push(s),
                    }
                }
                b.stmts = out;
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut v = vec![];
        H(&mut v).visit_block_mut(b);
        self.nested.extend(v);
    }

    /// `let name = |p: T| -> R { .. };` becomes a function that takes the captured parameters
    fn closures(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found: Option<(Ident, ExprClosure)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        found = Some((p.ident.clone(), c.clone()));
                    }
                }
            }
            let Some((name, c)) = found else {
                i += 1;
                continue;
            };
            let out = match &c.output {
                ReturnType::Type(_, t) => (**t).clone(),
                // what the function returns that its body is a call of
                _ if called_type(self.cx, &c.body).is_some() => called_type(self.cx, &c.body).unwrap(),
                _ => {
                    self.cx.problem(&self.key, "closure without a return type");
                    i += 1;
                    continue;
                }
            };
            let mut params: Vec<(Ident, Type)> = vec![];
            let mut ok = true;
            for p in &c.inputs {
                match p {
                    Pat::Type(pt) => match &*pt.pat {
                        Pat::Ident(pi) => params.push((pi.ident.clone(), (*pt.ty).clone())),
                        _ => ok = false,
                    },
                    _ => ok = false,
                }
            }
            let mut ids = Idents(Default::default());
            ids.visit_expr(&c.body);
            let mut caps: Vec<(Ident, Type)> = vec![];
            for a in &self.sig.inputs {
                match a {
                    FnArg::Typed(t) => {
                        if let Pat::Ident(pi) = &*t.pat {
                            if ids.0.contains(&pi.ident.to_string()) && !params.iter().any(|(n, _)| *n == pi.ident) {
                                caps.push((pi.ident.clone(), (*t.ty).clone()));
                            }
                        }
                    }
                    _ => {
                        if ids.0.contains("self") {
                            ok = false;
                        }
                    }
                }
            }
            if !ok {
                self.cx.problem(&self.key, "closure that cannot be lifted");
                i += 1;
                continue;
            }
            let n = CLO.with(|c| {
                *c.borrow_mut() += 1;
                *c.borrow()
            });
            let fname = format_ident!("clo{}_{}", n, name);
            let (cn, ct): (Vec<_>, Vec<_>) = caps.iter().cloned().unzip();
            let (pn, pt): (Vec<_>, Vec<_>) = params.iter().cloned().unzip();
            let body = &c.body;
            let blk: Block = match &**body {
                Expr::Block(eb) => eb.block.clone(),
                e => parse_quote!({ #e }),
            };
            let f: ItemFn = parse_quote!(fn #fname(#(#cn: #ct,)* #(#pn: #pt),*) -> #out #blk);
            self.lifted.push((format!("{}#{}", self.key, name), f));
            self.cx.count("closure lifted to a function");
            b.stmts.remove(i);
            struct R {
                name: Ident,
                fname: Ident,
                caps: Vec<Ident>,
            }
            impl VisitMut for R {
                fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
                    visit_mut::visit_expr_call_mut(self, c);
                    if let Expr::Path(p) = &*c.func {
                        if p.path.is_ident(&self.name) {
                            let f = &self.fname;
                            *c.func = parse_quote!(#f);
                            let old: Vec<Expr> = c.args.iter().cloned().collect();
                            c.args = self.caps.iter().map(|x| -> Expr { parse_quote!(#x) }).chain(old).collect();
                        }
                    }
                }
            }
            R { name, fname, caps: cn }.visit_block_mut(b);
        }
    }
}

struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_path(&mut self, p: &'a Path) {
        if let Some(i) = p.get_ident() {
            self.0.insert(i.to_string());
        }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn go(t: TokenStream, s: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    TokenTree::Ident(i) => {
                        s.insert(i.to_string());
                    }
                    TokenTree::Group(g) => go(g.stream(), s),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
    }
}

/// `let g = match x { 0 => F, 1 => G, .. }; .. g(args) ..` (in the next
/// statement) becomes `.. match x { 0 => F(args), 1 => G(args), .. } ..`
struct Defun<'a> {
    cx: &'a mut Ctx,
}

fn is_fn_path(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.segments.len() >= 2 && last(&p.path).chars().next().map_or(false, |c| c.is_lowercase()),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => is_fn_path(e),
            _ => false,
        },
        _ => false,
    }
}

impl<'a> VisitMut for Defun<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut hit: Option<(Ident, ExprMatch)> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(p), Some(init)) = (pat, &l.init) {
                    let two = match &*init.expr {
                        Expr::If(i) => match (&i.then_branch.stmts[..], i.else_branch.as_ref().map(|x| &*x.1)) {
                            ([Stmt::Expr(x, None)], Some(Expr::Block(o))) => match &o.block.stmts[..] {
                                [Stmt::Expr(y, None)] if is_fn_path(x) && is_fn_path(y) && !matches!(&*i.cond, Expr::Let(_)) => {
                                    let c = &i.cond;
                                    Some(parse_quote!(match #c { true => #x, false => #y }))
                                }
                                _ => None,
                            },
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Expr::Match(m) = two.as_ref().unwrap_or(&*init.expr) {
                        if m.arms.iter().any(|a| is_fn_path(&a.body)) {
                            hit = Some((p.ident.clone(), m.clone()));
                        }
                    }
                }
            }
            if let Some((name, m)) = hit {
                struct R<'x> {
                    name: Ident,
                    m: &'x ExprMatch,
                    n: usize,
                }
                impl<'x> VisitMut for R<'x> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::Call(c) = e {
                            if let Expr::Path(p) = &*c.func {
                                if p.path.is_ident(&self.name) {
                                    let args = c.args.clone();
                                    let mut m = self.m.clone();
                                    for a in m.arms.iter_mut() {
                                        if is_fn_path(&a.body) {
                                            let f = &a.body;
                                            *a.body = parse_quote!(#f(#args));
                                        }
                                    }
                                    self.n += 1;
                                    *e = Expr::Match(m);
                                }
                            }
                        }
                    }
                }
                let mut r = R { name, m: &m, n: 0 };
                r.visit_stmt_mut(&mut b.stmts[i + 1]);
                if r.n == 1 {
                    self.cx.count("match over function items turned into a match over calls");
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
    }
}

/// Inlines calls of functions that have no contract
struct Inliner<'a> {
    cx: &'a mut Ctx,
    key: &'a str,
    n: usize,
    depth: usize,
    total: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Plain,
    Try,
    Tail,
}

struct Returns {
    err: usize,
    other: usize,
}
fn is_err_call(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            return last(&p.path) == "Err";
        }
    }
    false
}
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        match &r.expr {
            Some(e) if is_err_call(e) => self.err += 1,
            _ => self.other += 1,
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.err += 1;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}

/// The shape `try!` expands to; gives the tried expression
pub fn try_match(m: &mut ExprMatch) -> Option<&mut Expr> {
    if m.arms.len() != 2 {
        return None;
    }
    let name = |p: &Pat| match p {
        Pat::TupleStruct(t) => last(&t.path),
        _ => String::new(),
    };
    if name(&m.arms[0].pat) != "Ok" || name(&m.arms[1].pat) != "Err" {
        return None;
    }
    let body = match &*m.arms[1].body {
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, _) => e.clone(),
            _ => return None,
        },
        e => e.clone(),
    };
    match body {
        Expr::Return(ExprReturn { expr: Some(e), .. }) if is_err_call(&e) => Some(&mut m.expr),
        _ => None,
    }
}

impl<'a> Inliner<'a> {
    fn helper_of(&self, e: &Expr) -> Option<(Helper, Vec<Expr>, Option<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = last(&p.path);
                    let h = self.cx.helpers.get(&n)?;
                    if h.is_method || p.qself.is_some() {
                        return None;
                    }
                    if p.path.segments.len() > 1 && h.self_ty.is_none() && n == "new" {
                        return None;
                    }
                    if h.self_ty.is_none() && p.path.segments.len() > 1 {
                        let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                        if q != "self" && q != "super" && q.chars().next().map_or(false, |c| c.is_uppercase()) {
                            return None;
                        }
                    }
                    if let Some(t) = &h.self_ty {
                        // Type::f or Self::f
                        if p.path.segments.len() < 2 {
                            return None;
                        }
                        let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                        if q != "Self" && !ty_key(t).starts_with(&q) {
                            return None;
                        }
                    }
                    if h.sig.inputs.len() != c.args.len() {
                        return None;
                    }
                    return Some((h.clone(), c.args.iter().cloned().collect(), None));
                }
                None
            }
            Expr::MethodCall(c) => {
                let h = self.cx.helpers.get(&c.method.to_string())?;
                if !h.is_method || h.sig.inputs.len() != c.args.len() + 1 {
                    return None;
                }
                Some((h.clone(), c.args.iter().cloned().collect(), Some((*c.receiver).clone())))
            }
            _ => None,
        }
    }

    fn try_inline(&mut self, e: &mut Expr, pos: Pos) -> bool {
        if let Expr::Paren(p) = e {
            return self.try_inline(&mut p.expr, pos);
        }
        let Some((h, args, recv)) = self.helper_of(e) else { return false };
        if h.key == self.key {
            return false;
        }
        if self.depth >= 10 || self.total + self.n > 60 {
            self.cx.problem(self.key, &format!("{} cannot be inlined: recursive, or too many calls", h.key));
            return false;
        }
        let mut r = Returns { err: 0, other: 0 };
        r.visit_block(&h.block);
        let fine = match pos {
            Pos::Plain => r.err + r.other == 0,
            Pos::Try => r.other == 0,
            Pos::Tail => true,
        };
        let mut block = h.block.clone();
        if !fine {
            let mut budget = 200;
            match no_return(&h.block.stmts, &mut budget) {
                Some(s) => block.stmts = s,
                None => return false,
            }
            self.cx.count("returns of an inlined function turned into branches");
        }
        let mut pats: Vec<TokenStream> = vec![];
        let mut tys: Vec<Option<Type>> = vec![];
        let gen: BTreeSet<String> = h.sig.generics.params.iter().map(|p| match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Lifetime(l) => l.lifetime.ident.to_string(),
            GenericParam::Const(c) => c.ident.to_string(),
        }).collect();
        for a in &h.sig.inputs {
            if let FnArg::Typed(t) = a {
                let p = &t.pat;
                pats.push(quote!(#p));
                let text = t.ty.to_token_stream().to_string();
                let generic = text.contains('\'') || text.contains("impl ") || text.contains("Self")
                    || text.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| gen.contains(w));
                tys.push(if generic { None } else { Some((*t.ty).clone()) });
            }
        }
        if let Some(rv) = recv {
            let simple = matches!(&rv, Expr::Path(_)) || matches!(&rv, Expr::Field(_));
            let is_self = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
            if !simple {
                return false;
            }
            struct SelfRw {
                to: Expr,
                deref: bool,
            }
            impl VisitMut for SelfRw {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Path(p) = e {
                        if p.path.is_ident("self") {
                            *e = self.to.clone();
                            return;
                        }
                    }
                    if let Expr::Unary(u) = e {
                        if matches!(u.op, UnOp::Deref(_)) {
                            if let Expr::Path(p) = &*u.expr {
                                if p.path.is_ident("self") {
                                    self.deref = true;
                                }
                            }
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            if !is_self {
                let mut s = SelfRw { to: rv, deref: false };
                s.visit_block_mut(&mut block);
                if s.deref {
                    return false;
                }
            }
        }
        let stmts = &block.stmts;
        let new: Expr = if pats.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else {
            let mut lets = TokenStream::new();
            // arguments are evaluated before any parameter is bound
            let tmp: Vec<Ident> = (0..pats.len()).map(|i| format_ident!("inl{}_{}_{}", self.depth, self.n, i)).collect();
            for (t, (a, ty)) in tmp.iter().zip(args.iter().zip(tys.iter())) {
                match ty {
                    Some(ty) => lets.extend(quote!(let #t: #ty = #a;)),
                    None => lets.extend(quote!(let #t = #a;)),
                }
            }
            for (t, p) in tmp.iter().zip(pats.iter()) {
                lets.extend(quote!(let #p = #t;));
            }
            parse_quote!({ #lets #(#stmts)* })
        };
        *e = new;
        self.n += 1;
        self.cx.count("function without contract inlined at its call");
        true
    }

    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }

    fn tail_expr(&mut self, e: &mut Expr) {
        if self.try_inline(e, Pos::Tail) {
            return;
        }
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail_expr(e);
                }
            }
            Expr::Match(m) => {
                if try_match(m).is_none() {
                    for a in m.arms.iter_mut() {
                        self.tail_expr(&mut a.body);
                    }
                }
            }
            _ => {}
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    // an inlined body is not looked into in the same pass
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(ExprReturn { expr: Some(x), .. }) = e {
            let n = self.n;
            self.tail_expr(x);
            if self.n != n {
                return;
            }
        }
        if let Expr::Match(m) = e {
            if let Some(s) = try_match(m) {
                if self.try_inline(s, Pos::Try) {
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            if self.try_inline(&mut t.expr, Pos::Try) {
                return;
            }
        }
        if self.try_inline(e, Pos::Plain) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// One piece of a format string
enum Piece {
    Lit(String),
    /// argument, width, alignment (0: the default, 1: left, 2: right)
    Arg(usize, Option<usize>, u8),
}

fn parse_format(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < c.len() {
        match c[i] {
            '{' if i + 1 < c.len() && c[i + 1] == '{' => {
                lit.push('{');
                i += 2;
            }
            '}' if i + 1 < c.len() && c[i + 1] == '}' => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let j = (i..c.len()).find(|&j| c[j] == '}')?;
                let inner: String = c[i + 1..j].iter().collect();
                let (pos, spec) = match inner.find(':') {
                    Some(k) => (inner[..k].to_string(), inner[k + 1..].to_string()),
                    None => (inner.clone(), String::new()),
                };
                let n = if pos.is_empty() {
                    next += 1;
                    next - 1
                } else {
                    pos.parse().ok()?
                };
                let (w, right) = if spec.is_empty() {
                    (None, 0)
                } else {
                    let (r, rest) = match (spec.strip_prefix('>'), spec.strip_prefix('<')) {
                        (Some(x), _) => (2, x),
                        (_, Some(x)) => (1, x),
                        _ => (0, spec.as_str()),
                    };
                    if rest.starts_with('0') || rest.starts_with('+') {
                        return None;
                    }
                    (Some(rest.parse::<usize>().ok()?), r)
                };
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                out.push(Piece::Arg(n, w, right));
                i = j + 1;
            }
            x => {
                lit.push(x);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}

struct FmtArgs {
    lit: LitStr,
    args: Vec<Expr>,
}
impl parse::Parse for FmtArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let lit = i.parse()?;
        let mut args = vec![];
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            args.push(i.parse()?);
        }
        Ok(FmtArgs { lit, args })
    }
}

fn gen_write(f: &TokenStream, m: &Macro, rw: &mut ExprRw) -> Option<TokenStream> {
    let mut a: FmtArgs = m.parse_body().ok()?;
    for x in a.args.iter_mut() {
        rw.visit_expr_mut(x);
    }
    let pieces = parse_format(&a.lit.value())?;
    let mut calls: Vec<TokenStream> = vec![];
    for p in pieces {
        match p {
            Piece::Lit(s) => calls.push(quote!(::xfmt::lit(#f, #s))),
            Piece::Arg(n, w, right) => {
                let e = a.args.get(n)?;
                match w {
                    None => calls.push(quote!(::xfmt::arg(#f, &(#e)))),
                    Some(w) => calls.push(quote!(::xfmt::arg_w(#f, &(#e), #w, #right))),
                }
            }
        }
    }
    if calls.is_empty() {
        return Some(quote!(::core::result::Result::Ok(())));
    }
    let mut out = calls.pop().unwrap();
    while let Some(c) = calls.pop() {
        out = quote!(match #c { ::core::result::Result::Ok(_) => #out, ::core::result::Result::Err(e) => ::core::result::Result::Err(e) });
    }
    Some(out)
}

fn as_format_args(e: &Expr) -> Option<&Macro> {
    match e {
        Expr::Macro(m) if last(&m.mac.path) == "format_args" => Some(&m.mac),
        Expr::Paren(p) => as_format_args(&p.expr),
        Expr::Reference(r) => as_format_args(&r.expr),
        _ => None,
    }
}

fn is_none(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if last(&p.path) == "None")
}

struct ExprRw<'a, 'b> {
    o: &'a mut BodyRw<'b>,
}

fn find_array(e: &Expr) -> Option<ExprArray> {
    struct F(Option<ExprArray>);
    impl<'a> Visit<'a> for F {
        fn visit_expr_array(&mut self, a: &'a ExprArray) {
            if self.0.is_none() {
                self.0 = Some(a.clone());
            }
        }
    }
    let mut f = F(None);
    f.visit_expr(e);
    f.0
}

/// `&P` patterns: the reference is left to the default binding mode; names bound by
/// copy below it are returned (they need a dereference)
fn strip_refs(p: &mut Pat) -> Option<Vec<Ident>> {
    struct S {
        depth: usize,
        copies: Vec<Ident>,
        seen: bool,
    }
    impl VisitMut for S {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                self.seen = true;
                let mut inner = (*r.pat).clone();
                self.depth += 1;
                self.visit_pat_mut(&mut inner);
                self.depth -= 1;
                *p = inner;
                return;
            }
            if let Pat::Ident(i) = p {
                let upper = i.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase());
                if self.depth > 0 && !upper && i.subpat.is_none() {
                    if i.by_ref.is_some() {
                        i.by_ref = None;
                    } else {
                        self.copies.push(i.ident.clone());
                    }
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut s = S { depth: 0, copies: vec![], seen: false };
    s.visit_pat_mut(p);
    if s.seen {
        Some(s.copies)
    } else {
        None
    }
}

fn deref_copies(b: &mut Block, names: &[Ident]) {
    for (k, n) in names.iter().enumerate() {
        b.stmts.insert(k, parse_quote!(let #n = *#n;));
    }
}

impl<'a, 'b> VisitMut for ExprRw<'a, 'b> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        TypeRw { cx: self.o.cx }.visit_type_mut(t);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // what derive(Clone) writes to check the types of the fields
        b.stmts.retain(|s| !matches!(s, Stmt::Local(l) if l.init.is_none() && l.to_token_stream().to_string().contains("AssertParamIs")));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Item(Item::Use(u)) = s {
            let t = emit_use(u, self.o.cx);
            *s = Stmt::Item(Item::Verbatim(t));
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // ::alloc::.. is not nameable without extern crate
        if p.segments.len() > 1 && p.segments[0].ident == "alloc" && p.leading_colon.is_some() {
            p.segments[0].ident = format_ident!("std");
        }
        // std::fmt::X written out in a body
        if p.segments.len() > 2 && (p.segments[0].ident == "std" || p.segments[0].ident == "core") && p.segments[1].ident == "fmt" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            let n = format_ident!("xfmt");
            *p = parse_quote!(::#n);
            p.segments.extend(rest);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // vec![..] first, its expansion is not otherwise meaningful
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = last(&p.path);
                if n == "box_assume_init_into_vec_unsafe" || n == "into_vec" {
                    if let Some(a) = find_array(&c.args[0]) {
                        let el = a.elems.iter();
                        self.o.cx.count("vec![..] turned into pushes");
                        *e = parse_quote!({ let mut vec_lit = Vec::new(); #(vec_lit.push(#el);)* vec_lit });
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if let Some(names) = strip_refs(&mut a.pat) {
                        self.o.cx.count("reference patterns left to the default binding mode");
                        if !names.is_empty() {
                            if a.guard.is_some() {
                                self.o.cx.problem(&self.o.key.clone(), "guard below a reference pattern");
                            }
                            let body = &a.body;
                            let mut b: Block = parse_quote!({ #body });
                            deref_copies(&mut b, &names);
                            *a.body = parse_quote!(#b);
                        }
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    if let Some(names) = strip_refs(&mut l.pat) {
                        self.o.cx.count("reference patterns left to the default binding mode");
                        deref_copies(&mut i.then_branch, &names);
                    }
                }
            }
            Expr::While(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    if let Some(names) = strip_refs(&mut l.pat) {
                        self.o.cx.count("reference patterns left to the default binding mode");
                        deref_copies(&mut i.body, &names);
                    }
                }
            }
            Expr::ForLoop(i) => {
                if let Some(names) = strip_refs(&mut i.pat) {
                    self.o.cx.count("reference patterns left to the default binding mode");
                    deref_copies(&mut i.body, &names);
                }
            }
            Expr::MethodCall(m) if m.method == "write_fmt" && m.args.len() == 1 => {
                if let Some(mac) = as_format_args(&m.args[0]) {
                    let r = &m.receiver;
                    match gen_write(&quote!(#r), mac, self) {
                        Some(t) => {
                            self.o.cx.count("write!(..) turned into formatter calls");
                            *e = Expr::Verbatim(t);
                        }
                        None => self.o.cx.problem(&self.o.key.clone(), "format string not supported"),
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_none(&b.left) || is_none(&b.right)) => {
                let x = if is_none(&b.left) { &b.right } else { &b.left };
                self.o.cx.count("comparison with None turned into is_none or is_some");
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!((#x).is_none()) } else { parse_quote!((#x).is_some()) };
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Ne(_)) && !self.o.cx.own_ne && !matches!(&*b.left, Expr::Lit(_)) && !matches!(&*b.right, Expr::Lit(_)) => {
                let (l, r) = (&b.left, &b.right);
                self.o.cx.count("a != b turned into !(a == b)");
                *e = parse_quote!(!(#l == #r));
            }
            Expr::MethodCall(m) if m.method == "join" && m.args.len() == 1 => {
                let (r, a) = (&m.receiver, &m.args[0]);
                self.o.cx.count("join turned into a call of its contract");
                *e = parse_quote!(::xfmt::join(&(#r), #a));
            }
            Expr::MethodCall(m) if (m.method == "into" || m.method == "to_owned" || m.method == "to_string") && m.args.is_empty()
                && matches!(&*m.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                let r = &m.receiver;
                self.o.cx.count("conversion of a literal to a String turned into a call of its contract");
                *e = parse_quote!(::xfmt::owned(#r));
            }
            // std declares these with `[u8; size_of::<u32>()]`, which Verus cannot match against a contract
            Expr::MethodCall(m) if (m.method == "to_le_bytes" || m.method == "to_be_bytes") && m.args.is_empty() => {
                let r = &m.receiver;
                self.o.cx.count("bytes of a word turned into a call of its contract");
                *e = if m.method == "to_le_bytes" { parse_quote!(crate::vspec::to_le4(#r)) } else { parse_quote!(crate::vspec::to_be4(#r)) };
            }
            Expr::Call(c) if c.args.len() == 1 && matches!(c.func.to_token_stream().to_string().as_str(), "u32 :: from_le_bytes" | "u32 :: from_be_bytes") => {
                let r = &c.args[0];
                self.o.cx.count("bytes of a word turned into a call of its contract");
                *e = if c.func.to_token_stream().to_string().ends_with("from_le_bytes") { parse_quote!(crate::vspec::from_le4(#r)) } else { parse_quote!(crate::vspec::from_be4(#r)) };
            }
            Expr::MethodCall(m) if m.method == "to_string" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!(::xfmt::to_string(&(#r)));
            }
            Expr::Unsafe(u) if u.block.stmts.len() == 1 && u.block.to_token_stream().to_string().contains("xpanic") => {
                *e = Expr::Verbatim(quote!(::vspec::xpanic()));
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let n = last(&p.path);
                let full = p.path.to_token_stream().to_string().replace(' ', "");
                if n == "must_use" && c.args.len() == 1 {
                    let mut x = c.args[0].clone();
                    while let Expr::Block(b) = &x {
                        if b.block.stmts.len() == 1 {
                            if let Stmt::Expr(y, None) = &b.block.stmts[0] {
                                x = y.clone();
                                continue;
                            }
                        }
                        break;
                    }
                    *e = x;
                } else if full.ends_with("fmt::format") || full == "::xfmt::format" {
                    if let Some(mac) = as_format_args(&c.args[0]) {
                        match gen_write(&quote!(&mut fbuf), mac, self) {
                            Some(t) => {
                                self.o.cx.count("format!(..) turned into formatter calls");
                                *e = Expr::Verbatim(quote!({
                                    let mut fbuf = ::xfmt::Formatter::buffer();
                                    match #t {
                                        ::core::result::Result::Ok(_) => {}
                                        ::core::result::Result::Err(_) => { ::vspec::xpanic() }
                                    }
                                    ::xfmt::into_string(fbuf)
                                }));
                            }
                            None => self.o.cx.problem(&self.o.key.clone(), "format string not supported"),
                        }
                    }
                } else if full.contains("panicking::") || full.contains("rt::begin_panic") || full.contains("rt::panic_fmt") {
                    self.o.cx.count("panic turned into an unreachability obligation");
                    *e = Expr::Verbatim(quote!(::vspec::xpanic()));
                } else if full.ends_with("intrinsics::discriminant_value") || full.ends_with("mem::discriminant") && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.o.cx.count("discriminant read through a function of the type");
                    *e = parse_quote!((#a).xdiscr());
                } else if full == "::core::intrinsics::unreachable" {
                    self.o.cx.count("unreachable code turned into an unreachability obligation");
                    *e = Expr::Verbatim(quote!(::vspec::xpanic()));
                } else if full.ends_with("cmp::max") {
                    let a = &c.args;
                    *e = parse_quote!(::vspec::xmax(#a));
                } else if full.ends_with("cmp::min") {
                    let a = &c.args;
                    *e = parse_quote!(::vspec::xmin(#a));
                } else if full == "String::from" && c.args.len() == 1 {
                    let a = &c.args;
                    *e = parse_quote!(::xfmt::owned(#a));
                } else if full == "::core::convert::From::from" {
                    let a = &c.args;
                    *e = parse_quote!(from_same(#a));
                } else if full == "Box::new" || full == "::std::boxed::Box::new" {
                    let rt = self.o.sig.output.to_token_stream().to_string();
                    let a = &c.args;
                    if rt.contains("XInst") {
                        self.o.cx.count("unsizing Box::new replaced by an opaque constructor");
                        *e = parse_quote!(xbox_inst(#a));
                    } else if rt.contains("XSet") {
                        self.o.cx.count("unsizing Box::new replaced by an opaque constructor");
                        *e = parse_quote!(xbox_set(#a));
                    }
                } else if self.o.cx.templates.contains_key(&n) {
                    let tmpl = self.o.cx.templates[&n].clone();
                    let Some(k) = tmpl.sig.inputs.iter().position(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.ty, Type::BareFn(_)))) else { return };
                    let Some(Expr::Path(ap)) = c.args.iter().nth(k).cloned() else {
                        self.o.cx.problem(&self.o.key.clone(), "function pointer argument is not a function");
                        return;
                    };
                    let target = last(&ap.path);
                    let Some(tf) = self.o.cx.freefns.get(&target).cloned() else { return };
                    let name = format_ident!("{}__{}", n, target);
                    if let Some(inst) = instantiate(&tmpl, k, &ap, &tf, &name) {
                        INSTANCES.with(|i| i.borrow_mut().push(Instance { name: name.to_string(), f: inst }));
                        let args: Vec<Expr> = c.args.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, a)| a.clone()).collect();
                        c.args = args.into_iter().collect();
                        *c.func = parse_quote!(#name);
                    }
                }
            }
            _ => {}
        }
    }
}

fn unify(pat: &Type, t: &Type, gens: &BTreeSet<String>, out: &mut BTreeMap<String, Type>) {
    if let (Type::Path(a), Type::Path(b)) = (pat, t) {
        if let Some(i) = a.path.get_ident() {
            if gens.contains(&i.to_string()) {
                out.insert(i.to_string(), t.clone());
                return;
            }
        }
        for (x, y) in a.path.segments.iter().zip(b.path.segments.iter()) {
            if let (PathArguments::AngleBracketed(p), PathArguments::AngleBracketed(q)) = (&x.arguments, &y.arguments) {
                let f = |g: &AngleBracketedGenericArguments| -> Vec<Type> {
                    g.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect()
                };
                for (u, v) in f(p).iter().zip(f(q).iter()) {
                    unify(u, v, gens, out);
                }
            }
        }
    } else if let (Type::Tuple(a), Type::Tuple(b)) = (pat, t) {
        for (u, v) in a.elems.iter().zip(b.elems.iter()) {
            unify(u, v, gens, out);
        }
    }
}

fn instantiate(tmpl: &ItemFn, k: usize, target: &ExprPath, tf: &ItemFn, name: &Ident) -> Option<ItemFn> {
    let mut f = tmpl.clone();
    let gens: BTreeSet<String> = f.sig.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
    let mut sub = BTreeMap::new();
    let mut pname = None;
    if let FnArg::Typed(t) = &f.sig.inputs[k] {
        if let Pat::Ident(p) = &*t.pat {
            pname = Some(p.ident.clone());
        }
        if let Type::BareFn(bf) = &*t.ty {
            if let (ReturnType::Type(_, a), ReturnType::Type(_, b)) = (&bf.output, &tf.sig.output) {
                unify(a, b, &gens, &mut sub);
            }
        }
    }
    let pname = pname?;
    f.sig.ident = name.clone();
    f.sig.inputs = f.sig.inputs.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, a)| a.clone()).collect();
    f.sig.generics.params = f
        .sig
        .generics
        .params
        .iter()
        .filter(|p| !matches!(p, GenericParam::Type(t) if sub.contains_key(&t.ident.to_string())))
        .cloned()
        .collect();
    struct S<'x> {
        sub: &'x BTreeMap<String, Type>,
        p: Ident,
        target: ExprPath,
    }
    impl<'x> VisitMut for S<'x> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(a) = t {
                if let Some(i) = a.path.get_ident() {
                    if let Some(n) = self.sub.get(&i.to_string()) {
                        *t = n.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
            if e.path.is_ident(&self.p) {
                *e = self.target.clone();
                return;
            }
            visit_mut::visit_expr_path_mut(self, e);
        }
    }
    S { sub: &sub, p: pname, target: target.clone() }.visit_item_fn_mut(&mut f);
    Some(f)
}

/// Attaches loop annotations, in order of appearance
pub struct LoopRw<'a> {
    pub cx: &'a mut Ctx,
    pub key: String,
    pub loops: &'a [Value],
    pub n: usize,
}

impl<'a> LoopRw<'a> {
    fn get(&mut self) -> Option<(String, String, String, String, String, String)> {
        let i = self.n;
        self.n += 1;
        let v = self.loops.get(i)?;
        let s = |k: &str| v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        Some((s("inv"), s("iter"), s("begin"), s("end"), s("after"), s("before")))
    }
}

impl<'a> VisitMut for LoopRw<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                let ann = self.get();
                visit_mut::visit_expr_mut(self, e);
                let Some((inv, iter, begin, end, after, before)) = ann else { return };
                let inv = self.cx.text(&format!("\n{}\n", inv));
                let begin = self.cx.text(&begin);
                let end = self.cx.text(&end);
                let after = self.cx.text(&after);
                let before = self.cx.text(&before);
                let tts = match e {
                    Expr::While(w) => {
                        let (l, c, b) = (&w.label, &w.cond, &w.body.stmts);
                        quote!(#before #l while #c #inv { #begin #(#b)* #end } #after)
                    }
                    Expr::Loop(w) => {
                        let (l, b) = (&w.label, &w.body.stmts);
                        quote!(#before #l loop #inv { #begin #(#b)* #end } #after)
                    }
                    Expr::ForLoop(w) => {
                        let (l, p, x, b) = (&w.label, &w.pat, &w.expr, &w.body.stmts);
                        if iter.is_empty() {
                            quote!(#before #l for #p in #x #inv { #begin #(#b)* #end } #after)
                        } else {
                            let it = format_ident!("{}", iter);
                            quote!(#before #l for #p in #it: #x #inv { #begin #(#b)* #end } #after)
                        }
                    }
                    _ => unreachable!(),
                };
                *e = Expr::Verbatim(tts);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `continue` in a `for` loop, which the verifier does not accept: what follows moves into the
/// branches that go on
pub struct Cont<'a> {
    pub cx: &'a mut Ctx,
}

struct HasCont(bool);
impl<'a> Visit<'a> for HasCont {
    fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
        let _ = c;
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) {
        self.visit_expr(&e.expr);
        // a continue of the outer loop by its label
        struct L(bool);
        impl<'a> Visit<'a> for L {
            fn visit_expr_continue(&mut self, c: &'a ExprContinue) {
                self.0 |= c.label.is_some();
            }
        }
        let mut l = L(false);
        l.visit_block(&e.body);
        self.0 |= l.0;
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        self.visit_expr(&e.cond);
    }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
}
fn cont_stmts(s: &[Stmt]) -> bool {
    let mut h = HasCont(false);
    s.iter().for_each(|s| h.visit_stmt(s));
    h.0
}

fn bound(s: &[Stmt]) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(BTreeSet::new());
    s.iter().for_each(|s| b.visit_stmt(s));
    b.0
}
fn mentions(s: &[Stmt], names: &BTreeSet<String>) -> bool {
    fn go(t: TokenStream, names: &BTreeSet<String>) -> bool {
        t.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()),
            proc_macro2::TokenTree::Group(g) => go(g.stream(), names),
            _ => false,
        })
    }
    s.iter().any(|s| go(s.to_token_stream(), names))
}

/// What this block ends with makes it diverge
fn diverges(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(Expr::Continue(_) | Expr::Return(_) | Expr::Break(_), _)) => true,
        Some(Stmt::Expr(Expr::Block(b), _)) => diverges(&b.block.stmts),
        Some(Stmt::Expr(Expr::If(i), _)) => {
            diverges(&i.then_branch.stmts)
                && i.else_branch.as_ref().map_or(false, |(_, e)| diverges(&[Stmt::Expr((**e).clone(), None)]))
        }
        Some(Stmt::Expr(Expr::Match(m), _)) => m.arms.iter().all(|a| diverges(&[Stmt::Expr((*a.body).clone(), None)])),
        _ => false,
    }
}

/// The statements with `rest` behind them, without `continue`; None: not of this shape
fn without(s: &[Stmt], rest: &[Stmt], budget: &mut i32) -> Option<Vec<Stmt>> {
    *budget -= 1;
    if *budget < 0 {
        return None;
    }
    let mut out: Vec<Stmt> = vec![];
    for (i, st) in s.iter().enumerate() {
        if !cont_stmts(std::slice::from_ref(st)) {
            let last = i + 1 == s.len();
            match st {
                Stmt::Expr(e, None) if last && !matches!(e, Expr::Return(_)) => out.push(parse_quote!(#e;)),
                _ => out.push(st.clone()),
            }
            continue;
        }
        let mut after: Vec<Stmt> = s[i + 1..].to_vec();
        // what comes behind must not be captured by what is declared here
        if mentions(rest, &bound(&s[i + 1..])) {
            return None;
        }
        after.extend(rest.iter().cloned());
        let arm = |b: &[Stmt], budget: &mut i32| -> Option<Vec<Stmt>> {
            if diverges(b) {
                return without(b, &[], budget);
            }
            if !cont_stmts(b) {
                // a scope of its own
                let b: Vec<Stmt> = without(b, &[], budget)?;
                let mut v: Vec<Stmt> = if b.is_empty() { vec![] } else { vec![parse_quote!({ #(#b)* })] };
                v.extend(without(&after, &[], budget)?);
                return Some(v);
            }
            if mentions(&after, &bound(b)) {
                return None;
            }
            without(b, &after, budget)
        };
        match st {
            Stmt::Expr(Expr::Continue(c), _) => {
                if c.label.is_some() {
                    return None;
                }
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let v = arm(&b.block.stmts, budget)?;
                out.push(parse_quote!({ #(#v)* }));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                if cont_stmts(&[Stmt::Expr((*f.cond).clone(), None)]) {
                    return None;
                }
                let c = &f.cond;
                let a = arm(&f.then_branch.stmts, budget)?;
                let b = match &f.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => arm(&b.block.stmts, budget)?,
                        e => arm(&[Stmt::Expr(e.clone(), None)], budget)?,
                    },
                    None => arm(&[], budget)?,
                };
                out.push(parse_quote!(if #c { #(#a)* } else { #(#b)* }));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                for a in &mut m.arms {
                    let body: Vec<Stmt> = match &*a.body {
                        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                        e => vec![Stmt::Expr(e.clone(), None)],
                    };
                    let p = &a.pat;
                    if !diverges(&body) && mentions(&after, &bound(&[parse_quote!(let #p = ();)])) {
                        return None;
                    }
                    let v = arm(&body, budget)?;
                    a.body = Box::new(parse_quote!({ #(#v)* }));
                    a.comma = None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            // let p = match e { a => v, b => continue };
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, e)) = &init.diverge {
                    // let p = x else { continue };
                    let Expr::Block(b) = &**e else { return None };
                    let x = &init.expr;
                    let no = without(&b.block.stmts, &[], budget)?;
                    let yes = without(&after, &[], budget)?;
                    out.push(parse_quote!(if let #pat = #x { #(#yes)* } else { #(#no)* }));
                    return Some(out);
                }
                let bind = |e: &Expr| -> Stmt { parse_quote!(let #pat = #e;) };
                match &*init.expr {
                    Expr::Match(m) => {
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let mut body: Vec<Stmt> = match &*a.body {
                                Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                                e => vec![Stmt::Expr(e.clone(), None)],
                            };
                            let v = if diverges(&body) {
                                without(&body, &[], budget)?
                            } else {
                                let Some(Stmt::Expr(val, None)) = body.pop() else { return None };
                                if cont_stmts(&body) || cont_stmts(&[Stmt::Expr(val.clone(), None)]) {
                                    return None;
                                }
                                let p = &a.pat;
                                let mut here = bound(&body);
                                here.extend(bound(&[parse_quote!(let #p = ();)]));
                                for n in bound(&[bind(&parse_quote!(()))]) {
                                    here.remove(&n);
                                }
                                if mentions(&after, &here) {
                                    return None;
                                }
                                body.push(bind(&val));
                                body.extend(without(&after, &[], budget)?);
                                body
                            };
                            a.body = Box::new(parse_quote!({ #(#v)* }));
                            a.comma = None;
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return Some(out);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    out.extend(rest.iter().cloned());
    Some(out)
}

impl<'a> VisitMut for Cont<'a> {
    fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, e);
        if cont_stmts(&e.body.stmts) {
            if let Some(v) = without(&e.body.stmts, &[], &mut 60) {
                self.cx.count("continue in a for loop turned into branches");
                e.body.stmts = v;
            }
        }
    }
}

/// Combinators of Option and Result that take a closure become the matches they stand for
pub struct Comb<'a> {
    cx: &'a mut Ctx,
}

impl<'a> Comb<'a> {
    fn shape(&self, e: &Expr) -> Option<char> {
        let known = |n: &str| match self.cx.shapes.get(n) {
            Some(s) if s.len() == 1 => s.iter().next().cloned().filter(|c| *c != 'X'),
            _ => None,
        };
        match e {
            Expr::Paren(p) => self.shape(&p.expr),
            Expr::Reference(p) => self.shape(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.shape(e),
                _ => None,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.shape(e),
                _ => None,
            },
            Expr::Match(m) => m.arms.iter().filter_map(|a| self.shape(&a.body)).next(),
            Expr::Path(p) if last(&p.path) == "None" => Some('O'),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => match last(&p.path).as_str() {
                    "Some" => Some('O'),
                    "Ok" | "Err" | "from_utf8" => Some('R'),
                    n => known(n),
                },
                _ => None,
            },
            Expr::Field(f) => match &f.member {
                Member::Named(n) => known(&n.to_string()),
                _ => None,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "as_ref" | "as_mut" | "clone" | "or" => self.shape(&m.receiver),
                    "first" | "last" | "get" | "get_mut" | "pop" | "next" | "downcast_ref" | "cloned" | "copied" | "take" | "ok" | "err" | "insert" | "remove"
                    | "position" | "find" | "split_first" | "split_last" | "checked_add" | "checked_sub" | "checked_mul" => Some('O'),
                    "map_err" | "ok_or" | "ok_or_else" => Some('R'),
                    _ => known(&n),
                }
            }
            _ => None,
        }
    }
}

/// The pattern and the body of a closure, or of a path to a function
fn lambda(e: &Expr) -> Option<(Option<Pat>, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() <= 1 => {
            struct R(bool);
            impl<'x> Visit<'x> for R {
                fn visit_expr_return(&mut self, _: &'x ExprReturn) {
                    self.0 = true;
                }
                fn visit_expr_try(&mut self, _: &'x ExprTry) {
                    self.0 = true;
                }
            }
            let mut r = R(false);
            r.visit_expr(&c.body);
            if r.0 {
                return None;
            }
            let p = c.inputs.first().map(|p| match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            });
            Some((p, (*c.body).clone()))
        }
        Expr::Path(_) => Some((Some(parse_quote!(comb_arg)), parse_quote!(#e(comb_arg)))),
        _ => None,
    }
}

impl<'a> VisitMut for Comb<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let r = &m.receiver;
        let name = m.method.to_string();
        let n = m.args.len();
        let l = match m.args.last() {
            Some(a) => lambda(a),
            None => None,
        };
        let Some((p, b)) = l else { return };
        let closure = matches!(m.args.last(), Some(Expr::Closure(_)));
        let shape = self.shape(r);
        let new: Option<Expr> = match (name.as_str(), n, &p) {
            ("map_err", 1, Some(p)) => Some(parse_quote!(match #r { Ok(comb_v) => Ok(comb_v), Err(#p) => Err(#b) })),
            ("ok_or_else", 1, None) => Some(parse_quote!(match #r { Some(comb_v) => Ok(comb_v), None => Err(#b) })),
            ("is_some_and", 1, Some(p)) => Some(parse_quote!(match #r { Some(#p) => #b, None => false })),
            ("is_none_or", 1, Some(p)) => Some(parse_quote!(match #r { Some(#p) => #b, None => true })),
            ("unwrap_or_else", 1, None) if closure => Some(parse_quote!(match #r { Some(comb_v) => comb_v, None => #b })),
            ("unwrap_or_else", 1, Some(p)) if closure => Some(parse_quote!(match #r { Ok(comb_v) => comb_v, Err(#p) => #b })),
            ("or_else", 1, None) if closure => Some(parse_quote!(match #r { Some(comb_v) => Some(comb_v), None => #b })),
            ("or_else", 1, Some(p)) if closure => Some(parse_quote!(match #r { Ok(comb_v) => Ok(comb_v), Err(#p) => #b })),
            ("map", 1, Some(p)) => match shape {
                Some('O') => Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
                Some('R') => Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(comb_e) => Err(comb_e) })),
                _ => None,
            },
            ("and_then", 1, Some(p)) => match shape.or_else(|| self.shape(&b)) {
                Some('O') => Some(parse_quote!(match #r { Some(#p) => #b, None => None })),
                Some('R') => Some(parse_quote!(match #r { Ok(#p) => #b, Err(comb_e) => Err(comb_e) })),
                _ => None,
            },
            ("map_or", 2, Some(p)) if matches!(m.args[0], Expr::Lit(_) | Expr::Path(_)) => {
                let d = &m.args[0];
                match shape {
                    Some('O') => Some(parse_quote!(match #r { Some(#p) => #b, None => #d })),
                    Some('R') => Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d })),
                    _ => None,
                }
            }
            ("map_or_else", 2, Some(p)) => match (lambda(&m.args[0]), shape) {
                (Some((None, d)), _) => Some(parse_quote!(match #r { Some(#p) => #b, None => #d })),
                (Some((Some(q), d)), _) => Some(parse_quote!(match #r { Ok(#p) => #b, Err(#q) => #d })),
                _ => None,
            },
            _ => None,
        };
        if let Some(x) = new {
            self.cx.count("combinator of Option or Result turned into the match it stands for");
            *e = x;
        }
    }
}

/// What the free function returns that an expression is a call of
fn called_type(cx: &Ctx, e: &Expr) -> Option<Type> {
    match e {
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => called_type(cx, e),
            _ => None,
        },
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let f = cx.freefns.get(&last(&p.path))?;
                match &f.sig.output {
                    ReturnType::Type(_, t) if f.sig.generics.params.is_empty() => Some((**t).clone()),
                    _ => None,
                }
            }
            _ => None,
        },
        _ => None,
    }
}

fn returns(s: &[Stmt]) -> bool {
    let mut r = Returns { err: 0, other: 0 };
    s.iter().for_each(|s| r.visit_stmt(s));
    r.err + r.other > 0
}

fn pat_names(p: &Pat) -> BTreeSet<String> {
    bound(&[parse_quote!(let #p = ();)]).into_iter().filter(|n| !n.starts_with(|c: char| c.is_uppercase())).collect()
}

fn as_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}

/// An arm `Variant(x) => x` with a name for `x` that occurs nowhere else
fn fresh(a: &mut Arm, n: i32) {
    if let (Pat::TupleStruct(t), Expr::Path(b)) = (&mut a.pat, &mut *a.body) {
        if let (1, Some(Pat::Ident(i))) = (t.elems.len(), t.elems.first_mut()) {
            if b.path.is_ident(&i.ident) && i.by_ref.is_none() && i.subpat.is_none() {
                i.ident = format_ident!("arm_v{}", n.max(0) as u32);
                b.path = i.ident.clone().into();
            }
        }
    }
}

/// Statements whose value is that of the function they are the body of, without `return`;
/// None: not of this shape
pub fn no_return(s: &[Stmt], budget: &mut i32) -> Option<Vec<Stmt>> {
    *budget -= 1;
    if *budget < 0 {
        return None;
    }
    let mut out: Vec<Stmt> = vec![];
    for (i, st) in s.iter().enumerate() {
        if !returns(std::slice::from_ref(st)) {
            out.push(st.clone());
            continue;
        }
        let after: Vec<Stmt> = s[i + 1..].to_vec();
        let tail = after.is_empty() && matches!(st, Stmt::Expr(_, None));
        let arm = |b: &[Stmt], names: &BTreeSet<String>, budget: &mut i32| -> Option<Vec<Stmt>> {
            if tail || diverges(b) {
                return no_return(b, budget);
            }
            if mentions(&after, names) {
                return None;
            }
            if !returns(b) {
                let mut v: Vec<Stmt> = if b.is_empty() { vec![] } else { vec![parse_quote!({ #(#b)* })] };
                v.extend(no_return(&after, budget)?);
                return Some(v);
            }
            if mentions(&after, &bound(b)) {
                return None;
            }
            let mut v = b.to_vec();
            if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
                if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
                    *semi = Some(Default::default());
                }
            }
            v.extend(after.iter().cloned());
            no_return(&v, budget)
        };
        let none = BTreeSet::new();
        match st {
            Stmt::Expr(Expr::Return(r), _) => {
                match &r.expr {
                    Some(e) if !returns(&[Stmt::Expr((**e).clone(), None)]) => out.push(Stmt::Expr((**e).clone(), None)),
                    Some(e) => out.extend(no_return(&as_stmts(e), budget)?),
                    None => {}
                }
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let t = arm(&b.block.stmts, &none, budget)?;
                out.push(Stmt::Expr(parse_quote!({ #(#t)* }), None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                if returns(&[Stmt::Expr((*f.cond).clone(), None)]) {
                    return None;
                }
                let names = match &*f.cond {
                    Expr::Let(l) => pat_names(&l.pat),
                    _ => BTreeSet::new(),
                };
                let t = arm(&f.then_branch.stmts, &names, budget)?;
                let e = match &f.else_branch {
                    Some((_, e)) => arm(&as_stmts(e), &none, budget)?,
                    None => no_return(&after, budget)?,
                };
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#e)* }), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if returns(&[Stmt::Expr((*m.expr).clone(), None)]) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| returns(&[Stmt::Expr((*g.1).clone(), None)]))) {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let t = arm(&as_stmts(&a.body), &pat_names(&a.pat), budget)?;
                    *a.body = parse_quote!({ #(#t)* });
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let p = &l.pat;
                let mine = bound(std::slice::from_ref(&parse_quote!(let #p = ();)));
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    let e = &init.expr;
                    if returns(&[Stmt::Expr((**e).clone(), None)]) {
                        return None;
                    }
                    let d = no_return(&as_stmts(d), budget)?;
                    let t = no_return(&after, budget)?;
                    out.push(Stmt::Expr(parse_quote!(match #e { #p => { #(#t)* }, _ => { #(#d)* } }), None));
                    return Some(out);
                }
                let value = |b: &[Stmt], names: &BTreeSet<String>, budget: &mut i32| -> Option<Vec<Stmt>> {
                    if diverges(b) {
                        return no_return(b, budget);
                    }
                    if returns(b) || mentions(&after, &names.difference(&mine).cloned().collect()) {
                        return None;
                    }
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #p = { #(#b)* };)];
                    v.extend(no_return(&after, budget)?);
                    Some(v)
                };
                match &*init.expr {
                    Expr::Match(m) => {
                        if returns(&[Stmt::Expr((*m.expr).clone(), None)]) || m.arms.iter().any(|a| a.guard.is_some()) {
                            return None;
                        }
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            fresh(a, *budget);
                            let t = value(&as_stmts(&a.body), &pat_names(&a.pat), budget)?;
                            *a.body = parse_quote!({ #(#t)* });
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return Some(out);
                    }
                    Expr::If(f) => {
                        if returns(&[Stmt::Expr((*f.cond).clone(), None)]) {
                            return None;
                        }
                        let names = match &*f.cond {
                            Expr::Let(l) => pat_names(&l.pat),
                            _ => BTreeSet::new(),
                        };
                        let t = value(&f.then_branch.stmts, &names, budget)?;
                        let e = value(&as_stmts(&f.else_branch.as_ref()?.1), &none, budget)?;
                        let c = &f.cond;
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#e)* }), None));
                        return Some(out);
                    }
                    Expr::Try(t) if !returns(&[Stmt::Expr((*t.expr).clone(), None)]) => {
                        let e = &t.expr;
                        let v = value(&[Stmt::Expr(parse_quote!(try_v), None)], &none, budget)?;
                        out.push(Stmt::Expr(parse_quote!(match #e { Ok(try_v) => { #(#v)* }, Err(try_e) => Err(::core::convert::From::from(try_e)) }), None));
                        return Some(out);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(out)
}
