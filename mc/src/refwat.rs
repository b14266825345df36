//! Reference model of a WAT document, written independently of the repository's parser:
//! a lexer, an S-expression reader and a scope/structure walker for *well-formed* documents.
//! Every model-based check predicts the expected answer from this model and compares it with what
//! the real code answers.
#![allow(dead_code)]

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Span {
    pub s: usize,
    pub e: usize,
}
impl Span {
    pub fn new(s: usize, e: usize) -> Self {
        Span { s, e }
    }
    pub fn text<'a>(&self, src: &'a str) -> &'a str {
        &src[self.s..self.e]
    }
    pub fn contains(&self, o: Span) -> bool {
        self.s <= o.s && o.e <= self.e
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum TK {
    L,
    R,
    Str,
    Id,
    Num,
    Word,
    Ws,
    LineC,
    BlockC,
    Bad,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub k: TK,
    pub sp: Span,
}
impl Tok {
    pub fn trivia(&self) -> bool {
        matches!(self.k, TK::Ws | TK::LineC | TK::BlockC)
    }
}

pub fn idchar(c: char) -> bool {
    // the `idchar` production of the WebAssembly text format
    c.is_ascii_alphanumeric() || "!#$%&'*+-./:<=>?@\\^_`|~".contains(c) && c != '\''
}

fn is_hexdigits(s: &str) -> bool {
    digits(s, |c| c.is_ascii_hexdigit())
}
fn is_decdigits(s: &str) -> bool {
    digits(s, |c| c.is_ascii_digit())
}
fn digits(s: &str, d: impl Fn(char) -> bool) -> bool {
    !s.is_empty() && s.split('_').all(|p| !p.is_empty() && p.chars().all(&d))
}
pub fn is_uint(s: &str) -> bool {
    match s.strip_prefix("0x") {
        Some(h) => is_hexdigits(h),
        None => is_decdigits(s),
    }
}
pub fn is_int(s: &str) -> bool {
    is_uint(s.strip_prefix(['+', '-']).unwrap_or(s))
}
pub fn is_float(s: &str) -> bool {
    let s = s.strip_prefix(['+', '-']).unwrap_or(s);
    if s == "inf" || s == "nan" {
        return true;
    }
    if let Some(h) = s.strip_prefix("nan:0x") {
        return is_hexdigits(h);
    }
    let (body, hex) = match s.strip_prefix("0x") {
        Some(h) => (h, true),
        None => (s, false),
    };
    let dig = |t: &str| if hex { is_hexdigits(t) } else { is_decdigits(t) };
    let (mant, exp) = match body.find(if hex { ['p', 'P'] } else { ['e', 'E'] }) {
        Some(i) => (&body[..i], Some(&body[i + 1..])),
        None => (body, None),
    };
    if let Some(exp) = exp {
        if !is_decdigits(exp.strip_prefix(['+', '-']).unwrap_or(exp)) {
            return false;
        }
    }
    match mant.split_once('.') {
        Some((a, b)) => dig(a) && (b.is_empty() || dig(b)),
        None => dig(mant),
    }
}
pub fn is_memarg(s: &str) -> bool {
    s.strip_prefix("offset=")
        .or_else(|| s.strip_prefix("align="))
        .is_some_and(is_uint)
}
pub fn is_number(s: &str) -> bool {
    is_int(s) || is_float(s)
}

pub fn lex(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let s = i;
        let k = match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => {
                while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\n' | b'\r') {
                    i += 1;
                }
                TK::Ws
            }
            b';' if b.get(i + 1) == Some(&b';') => {
                while i < b.len() && b[i] != b'\n' && !(b[i] == b'\r' && b.get(i + 1) == Some(&b'\n')) {
                    i += 1;
                }
                TK::LineC
            }
            b'(' if b.get(i + 1) == Some(&b';') => {
                let mut depth = 0;
                let mut closed = false;
                while i < b.len() {
                    if b[i] == b'(' && b.get(i + 1) == Some(&b';') {
                        depth += 1;
                        i += 2;
                    } else if b[i] == b';' && b.get(i + 1) == Some(&b')') {
                        depth -= 1;
                        i += 2;
                        if depth == 0 {
                            closed = true;
                            break;
                        }
                    } else {
                        i += 1;
                    }
                }
                if closed {
                    TK::BlockC
                } else {
                    TK::Bad
                }
            }
            b'(' => {
                i += 1;
                TK::L
            }
            b')' => {
                i += 1;
                TK::R
            }
            b'"' => {
                i += 1;
                let mut closed = false;
                while i < b.len() && b[i] != b'\n' {
                    if b[i] == b'\\' {
                        i += if b.get(i + 1) == Some(&b'\n') { 1 } else { 2 };
                    } else if b[i] == b'"' {
                        i += 1;
                        closed = true;
                        break;
                    } else {
                        i += 1;
                    }
                }
                i = i.min(b.len());
                if closed && is_string(&b[s + 1..i - 1]) {
                    TK::Str
                } else {
                    TK::Bad
                }
            }
            c if c.is_ascii() && idchar(c as char) => {
                while i < b.len() && b[i].is_ascii() && idchar(b[i] as char) {
                    i += 1;
                }
                let t = &src[s..i];
                if t.starts_with('$') {
                    if t.len() > 1 {
                        TK::Id
                    } else {
                        TK::Bad
                    }
                } else if is_number(t) {
                    TK::Num
                } else if t.as_bytes()[0].is_ascii_lowercase() {
                    TK::Word
                } else {
                    TK::Bad
                }
            }
            _ => {
                i += src[i..].chars().next().unwrap().len_utf8();
                TK::Bad
            }
        };
        out.push(Tok { k, sp: Span::new(s, i) });
    }
    out
}

/// The bytes between the quotes of a string literal.
fn is_string(mut b: &[u8]) -> bool {
    while let [c, rest @ ..] = b {
        b = rest;
        match (c, rest) {
            (0..=31 | 127, _) => return false,
            (b'\\', [b'u', b'{', ..]) => {
                let Some(n) = rest.iter().position(|c| *c == b'}') else { return false };
                let d = &rest[2..n];
                let hex = |c: Option<&u8>| c.is_some_and(|c| c.is_ascii_hexdigit());
                if !hex(d.first()) || !hex(d.last()) || d.iter().any(|c| !c.is_ascii_hexdigit() && *c != b'_') || d.windows(2).any(|w| w == b"__") {
                    return false;
                }
                let v = d.iter().filter(|c| **c != b'_').fold(0u64, |v, c| (v * 16 + (*c as char).to_digit(16).unwrap() as u64).min(1 << 32));
                if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
                    return false;
                }
                b = &rest[n + 1..];
            }
            (b'\\', [b't' | b'n' | b'r' | b'"' | b'\'' | b'\\', r @ ..]) => b = r,
            (b'\\', [x, y, r @ ..]) if x.is_ascii_hexdigit() && y.is_ascii_hexdigit() => b = r,
            (b'\\', _) => return false,
            _ => {}
        }
    }
    true
}

/// S-expression over significant tokens.
#[derive(Clone, Debug)]
pub enum Sx {
    A(Tok),
    L { sp: Span, items: Vec<Sx> },
}
impl Sx {
    pub fn sp(&self) -> Span {
        match self {
            Sx::A(t) => t.sp,
            Sx::L { sp, .. } => *sp,
        }
    }
}
pub fn read(toks: &[Tok]) -> Result<Vec<Sx>, String> {
    let mut stack: Vec<(usize, Vec<Sx>)> = vec![(0, vec![])];
    for t in toks.iter().filter(|t| !t.trivia()) {
        match t.k {
            TK::L => stack.push((t.sp.s, vec![])),
            TK::R => {
                if stack.len() < 2 {
                    return Err("unbalanced )".into());
                }
                let (s, items) = stack.pop().unwrap();
                stack.last_mut().unwrap().1.push(Sx::L { sp: Span::new(s, t.sp.e), items });
            }
            TK::Bad => return Err("bad token".into()),
            _ => stack.last_mut().unwrap().1.push(Sx::A(*t)),
        }
    }
    if stack.len() != 1 {
        return Err("unbalanced (".into());
    }
    Ok(stack.pop().unwrap().1)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Space {
    Func,
    Type,
    Global,
    Mem,
    Table,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Sig {
    pub params: Vec<(String, Option<String>)>,
    pub results: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub space: Space,
    pub module: usize,
    /// index in its own index space
    pub index: u32,
    /// index when all kinds are counted together
    pub shared: u32,
    pub name: Option<Span>,
    pub kw: Span,
    /// extent of the defining form: `(func ...)`, or the descriptor inside `(import "" "" (func ..))`
    pub span: Span,
    /// extent of the whole module field
    pub field: Span,
    pub imported: bool,
    /// Func: explicit (param)/(result) present
    pub sig: Option<Sig>,
    pub type_ref: Option<usize>,
    /// Global
    pub mutable: bool,
    pub ty: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Ref {
    pub space: Space,
    pub module: usize,
    pub func: Option<usize>,
    pub tok: Span,
    pub id: Ident,
    pub ctx: RefCtx,
    /// whether the tool claims to bind this reference (see DESIGN.md, "bound reference sites")
    pub bound: bool,
    /// span of the enclosing instruction if ctx == Instr
    pub instr: Option<Span>,
    pub instr_name: Option<String>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RefCtx {
    Instr,
    Index,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ident {
    Name(String),
    Num(u32),
    Bad,
}

#[derive(Clone, Debug)]
pub struct LocalDef {
    pub func: usize,
    pub is_param: bool,
    pub index: u32,
    pub name: Option<Span>,
    pub ty: String,
    /// `(param $x i32)` if named, else the value type token
    pub node: Span,
    /// where "go to" lands: the identifier, or the value type
    pub target: Span,
    /// enclosing `(param ..)` / `(local ..)` list
    pub list: Span,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Local {
    None,
    Def(usize),
    FromType(String),
}
#[derive(Clone, Debug)]
pub struct LocalRef {
    pub func: usize,
    pub tok: Span,
    pub id: Ident,
    pub instr_name: String,
}
#[derive(Clone, Debug)]
pub struct Block {
    pub func: Option<usize>,
    pub kind: String,
    pub folded: bool,
    pub kw: Span,
    pub span: Span,
    pub label: Option<Span>,
    /// `end $l`, `else $l`
    pub label_repeats: Vec<Span>,
    pub parent: Option<usize>,
    /// flat `else` branch extent
    pub else_span: Option<Span>,
}
#[derive(Clone, Debug)]
pub struct BlockRef {
    pub func: Option<usize>,
    pub tok: Span,
    pub id: Ident,
    /// enclosing blocks, innermost first
    pub chain: Vec<usize>,
}
#[derive(Clone, Debug)]
pub enum Opd {
    Lit(Tok),
    TypeUse(Span),
    Instr(Instr),
}
#[derive(Clone, Debug)]
pub struct Plain {
    pub name: Span,
    pub span: Span,
    pub folded: bool,
    pub ops: Vec<Opd>,
}
#[derive(Clone, Debug)]
pub enum Instr {
    Plain(Plain),
    Block(usize, Vec<Instr>),
}
impl Instr {
    pub fn span(&self, d: &Doc) -> Span {
        match self {
            Instr::Plain(p) => p.span,
            Instr::Block(b, _) => d.blocks[*b].span,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Func {
    pub def: usize,
    pub module: usize,
    pub span: Span,
    pub body: Vec<Instr>,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub kind: String,
    pub span: Span,
    pub module: usize,
}
#[derive(Clone, Debug)]
pub struct Module {
    pub span: Span,
    pub kw: Span,
    pub id: Option<Span>,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Quirks {
    /// one counter for all kinds of module-level definitions
    pub shared_index: bool,
    /// parameters that come from `(type x)` alone do not count
    pub no_type_params: bool,
    /// a branch to the function body from inside a block is not a target
    pub no_func_label: bool,
    /// branches outside of blocks are not checked
    pub top_br: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub src: String,
    /// known deviations of the tool switched on in the predictions (see known_findings.jsonl)
    pub quirks: Quirks,
    pub toks: Vec<Tok>,
    pub sx: Vec<Sx>,
    pub modules: Vec<Module>,
    pub fields: Vec<Field>,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    pub funcs: Vec<Func>,
    pub locals: Vec<LocalDef>,
    pub local_refs: Vec<LocalRef>,
    pub blocks: Vec<Block>,
    pub block_refs: Vec<BlockRef>,
    /// every plain instruction (preorder)
    pub plains: Vec<Plain>,
    /// (span of `(type x)` list, span of the complete type use)
    pub type_uses: Vec<(Span, Span)>,
    /// global initialisers: (def, body)
    pub inits: Vec<(usize, Vec<Instr>)>,
    /// for each token class override: heads of paren forms that are keywords
    pub keywords: Vec<Span>,
    pub instr_names: Vec<Span>,
    /// every node of the expected syntax tree: (kind, extent from first to last significant token)
    pub nodes: Vec<(&'static str, Span)>,
    /// expected kind of numeric and word tokens that are neither keywords nor instruction names
    pub leaves: Vec<(&'static str, Span)>,
}

const VALTYPES: [&str; 7] = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];

struct W<'a> {
    d: Doc,
    src: &'a str,
    module: usize,
    counters: [u32; 5],
    total: u32,
    func: Option<usize>,
    block_stack: Vec<usize>,
}
type R<T> = Result<T, String>;

pub fn parse(src: &str) -> R<Doc> {
    let toks = lex(src);
    let sx = read(&toks)?;
    let mut w = W {
        d: Doc { src: src.to_string(), toks, sx: sx.clone(), ..Default::default() },
        src,
        module: 0,
        counters: [0; 5],
        total: 0,
        func: None,
        block_stack: vec![],
    };
    for m in &sx {
        w.module_form(m)?;
    }
    Ok(w.d)
}

impl<'a> W<'a> {
    fn t(&self, sp: Span) -> &'a str {
        &self.src[sp.s..sp.e]
    }
    fn head(&self, x: &Sx) -> Option<&'a str> {
        match x {
            Sx::L { items, .. } => match items.first() {
                Some(Sx::A(t)) if t.k == TK::Word => Some(self.t(t.sp)),
                _ => None,
            },
            _ => None,
        }
    }
    fn list<'b>(&mut self, x: &'b Sx, kw: &str) -> R<(Span, Span, &'b [Sx])> {
        match x {
            Sx::L { sp, items } => match items.first() {
                Some(Sx::A(t)) if t.k == TK::Word && self.t(t.sp) == kw => {
                    self.d.keywords.push(t.sp);
                    Ok((*sp, t.sp, &items[1..]))
                }
                _ => Err(format!("expected ({kw}")),
            },
            _ => Err(format!("expected ({kw}")),
        }
    }
    fn opt_id<'b>(&self, it: &mut &'b [Sx]) -> Option<Span> {
        if let Some(Sx::A(t)) = it.first() {
            if t.k == TK::Id {
                *it = &it[1..];
                return Some(t.sp);
            }
        }
        None
    }
    fn atom<'b>(&self, it: &mut &'b [Sx], k: TK) -> R<Span> {
        match it.first() {
            Some(Sx::A(t)) if t.k == k => {
                *it = &it[1..];
                Ok(t.sp)
            }
            o => Err(format!("expected {k:?}, found {o:?}")),
        }
    }
    fn end(&self, it: &[Sx]) -> R<()> {
        match it.first() {
            None => Ok(()),
            Some(x) => Err(format!("unexpected {:?}", self.t(x.sp()))),
        }
    }
    fn n(&mut self, kind: &'static str, sp: Span) {
        self.d.nodes.push((kind, sp));
    }
    fn lf(&mut self, kind: &'static str, sp: Span) {
        self.d.leaves.push((kind, sp));
    }
    fn next_index(&mut self, s: Space) -> u32 {
        let i = self.counters[s as usize];
        self.counters[s as usize] += 1;
        i
    }
    fn ident(&self, sp: Span) -> Ident {
        let t = self.t(sp);
        if t.starts_with('$') {
            Ident::Name(t.to_string())
        } else if is_uint(t) {
            let c = t.replace('_', "");
            match c.strip_prefix("0x") {
                Some(h) => u32::from_str_radix(h, 16).map(Ident::Num).unwrap_or(Ident::Bad),
                None => c.parse().map(Ident::Num).unwrap_or(Ident::Bad),
            }
        } else {
            Ident::Bad
        }
    }
    fn index<'b>(&mut self, it: &mut &'b [Sx], space: Space, bound: bool) -> R<usize> {
        let sp = self.atom(it, TK::Id).or_else(|_| self.atom(it, TK::Num))?;
        if !(self.t(sp).starts_with('$') || is_uint(self.t(sp))) {
            return Err("bad index".into());
        }
        self.n("INDEX", sp);
        if !self.t(sp).starts_with('$') {
            self.lf("UNSIGNED_INT", sp);
        }
        Ok(self.add_ref(sp, space, RefCtx::Index, bound, None, None))
    }
    fn add_ref(&mut self, tok: Span, space: Space, ctx: RefCtx, bound: bool, instr: Option<Span>, instr_name: Option<String>) -> usize {
        let id = self.ident(tok);
        self.d.refs.push(Ref { space, module: self.module, func: self.func, tok, id, ctx, bound, instr, instr_name });
        self.d.refs.len() - 1
    }
    fn def(&mut self, space: Space, name: Option<Span>, kw: Span, span: Span, field: Span, imported: bool) -> usize {
        let index = self.next_index(space);
        let shared = self.total;
        self.total += 1;
        self.d.defs.push(Def {
            space,
            module: self.module,
            index,
            shared,
            name,
            kw,
            span,
            field,
            imported,
            sig: None,
            type_ref: None,
            mutable: false,
            ty: None,
        });
        self.d.defs.len() - 1
    }
    fn module_form(&mut self, x: &Sx) -> R<()> {
        let (span, kw, mut it) = self.list(x, "module")?;
        let id = self.opt_id(&mut it);
        self.module = self.d.modules.len();
        self.counters = [0; 5];
        self.total = 0;
        self.d.modules.push(Module { span, kw, id });
        self.n("MODULE", span);
        for f in it {
            let kind = self.head(f).ok_or("field expected")?.to_string();
            self.d.fields.push(Field { kind: kind.clone(), span: f.sp(), module: self.module });
            self.field(&kind, f)?;
        }
        Ok(())
    }
    fn import_export<'b>(&mut self, it: &mut &'b [Sx], many: bool) -> R<bool> {
        let mut imported = false;
        let (mut ni, mut ne) = (0, 0);
        while let Some(x) = it.first() {
            match self.head(x) {
                Some("import") => {
                    if !many && (ni == 1 || ne > 0) {
                        return Err("import".into());
                    }
                    ni += 1;
                    imported = true;
                    let (sp, _, mut i) = self.list(x, "import")?;
                    let a = self.atom(&mut i, TK::Str)?;
                    let b = self.atom(&mut i, TK::Str)?;
                    self.n("IMPORT", sp);
                    self.n("MODULE_NAME", a);
                    self.n("NAME", b);
                    self.end(i)?;
                }
                Some("export") => {
                    if !many && ne == 1 {
                        return Err("export".into());
                    }
                    ne += 1;
                    let (sp, _, mut i) = self.list(x, "export")?;
                    let b = self.atom(&mut i, TK::Str)?;
                    self.n("EXPORT", sp);
                    self.n("NAME", b);
                    self.end(i)?;
                }
                _ => break,
            }
            *it = &it[1..];
        }
        Ok(imported)
    }
    fn valtype<'b>(&mut self, it: &mut &'b [Sx]) -> R<Span> {
        let mut j = *it;
        let sp = self.atom(&mut j, TK::Word)?;
        if VALTYPES.contains(&self.t(sp)) {
            *it = j;
            self.n("VAL_TYPE", sp);
            let k = match self.t(sp) {
                "v128" => "VEC_TYPE",
                "funcref" | "externref" => "REF_TYPE",
                _ => "NUM_TYPE",
            };
            self.lf(k, sp);
            Ok(sp)
        } else {
            Err("value type".into())
        }
    }
    fn reftype<'b>(&mut self, it: &mut &'b [Sx]) -> R<Span> {
        let mut j = *it;
        let sp = self.atom(&mut j, TK::Word)?;
        if matches!(self.t(sp), "funcref" | "externref") {
            *it = j;
            self.lf("REF_TYPE", sp);
            Ok(sp)
        } else {
            Err("ref type".into())
        }
    }
    /// `(param ..)*` / `(local ..)*`; registers locals when in_func.
    fn params<'b>(&mut self, it: &mut &'b [Sx], kw: &str, in_func: bool, idx: &mut u32, sig: &mut Sig) -> R<usize> {
        let mut n = 0;
        while it.first().and_then(|x| self.head(x)) == Some(kw) {
            let (list, _, mut i) = self.list(&it[0], kw)?;
            self.n(if kw == "param" { "PARAM" } else { "LOCAL" }, list);
            *it = &it[1..];
            n += 1;
            if let Some(id) = self.opt_id(&mut i) {
                let ty = self.valtype(&mut i)?;
                self.end(i)?;
                sig.params.push((self.t(ty).into(), Some(self.t(id).into())));
                if in_func {
                    self.d.locals.push(LocalDef {
                        func: self.func.unwrap(),
                        is_param: kw == "param",
                        index: *idx,
                        name: Some(id),
                        ty: self.t(ty).into(),
                        node: list,
                        target: id,
                        list,
                    });
                }
                *idx += 1;
            } else {
                while !i.is_empty() {
                    let ty = self.valtype(&mut i)?;
                    sig.params.push((self.t(ty).into(), None));
                    if in_func {
                        self.d.locals.push(LocalDef {
                            func: self.func.unwrap(),
                            is_param: kw == "param",
                            index: *idx,
                            name: None,
                            ty: self.t(ty).into(),
                            node: ty,
                            target: ty,
                            list,
                        });
                    }
                    *idx += 1;
                }
            }
        }
        Ok(n)
    }
    fn results<'b>(&mut self, it: &mut &'b [Sx], sig: &mut Sig) -> R<usize> {
        let mut n = 0;
        while it.first().and_then(|x| self.head(x)) == Some("result") {
            let (sp, _, mut i) = self.list(&it[0], "result")?;
            self.n("RESULT", sp);
            *it = &it[1..];
            n += 1;
            while !i.is_empty() {
                let ty = self.valtype(&mut i)?;
                sig.results.push(self.t(ty).into());
            }
        }
        Ok(n)
    }
    /// type use; returns (explicit signature, reference to the type)
    fn type_use<'b>(&mut self, it: &mut &'b [Sx], in_func: bool, idx: &mut u32) -> R<(Option<Sig>, Option<usize>)> {
        let mut tr = None;
        let mut first: Option<Span> = None;
        let all = *it;
        if it.first().and_then(|x| self.head(x)) == Some("type") {
            let (sp, _, mut i) = self.list(&it[0], "type")?;
            tr = Some(self.index(&mut i, Space::Type, true)?);
            self.end(i)?;
            first = Some(sp);
            *it = &it[1..];
        }
        let mut sig = Sig::default();
        let np = self.params(it, "param", in_func, idx, &mut sig)?;
        let nr = self.results(it, &mut sig)?;
        let used = &all[..all.len() - it.len()];
        if !used.is_empty() {
            self.n("TYPE_USE", Span::new(used[0].sp().s, used.last().unwrap().sp().e));
        }
        if let Some(f) = first {
            let used = &all[..all.len() - it.len()];
            self.d.type_uses.push((f, Span::new(f.s, used.last().unwrap().sp().e)));
        }
        Ok((if np + nr > 0 { Some(sig) } else { None }, tr))
    }
    fn global_type<'b>(&mut self, it: &mut &'b [Sx]) -> R<(bool, String)> {
        if let Some(x @ Sx::L { .. }) = it.first() {
            let (sp, _, mut i) = self.list(x, "mut")?;
            self.n("GLOBAL_TYPE", sp);
            let ty = self.valtype(&mut i)?;
            self.end(i)?;
            *it = &it[1..];
            Ok((true, self.t(ty).into()))
        } else {
            let ty = self.valtype(it)?;
            self.n("GLOBAL_TYPE", ty);
            Ok((false, self.t(ty).into()))
        }
    }
    fn limits<'b>(&mut self, it: &mut &'b [Sx]) -> R<Span> {
        let a = self.atom(it, TK::Num)?;
        if !is_uint(self.t(a)) {
            return Err("limits".into());
        }
        self.lf("UNSIGNED_INT", a);
        let mut e = a.e;
        if let Some(Sx::A(t)) = it.first() {
            if t.k == TK::Num && is_uint(self.t(t.sp)) {
                *it = &it[1..];
                self.lf("UNSIGNED_INT", t.sp);
                e = t.sp.e;
            }
        }
        if let Some(Sx::A(t)) = it.first() {
            if t.k == TK::Word && matches!(self.t(t.sp), "shared" | "unshared") {
                *it = &it[1..];
                self.lf("SHARE", t.sp);
                e = t.sp.e;
            }
        }
        self.n("LIMITS", Span::new(a.s, e));
        Ok(Span::new(a.s, e))
    }
    fn memory_type<'b>(&mut self, it: &mut &'b [Sx]) -> R<()> {
        let sp = self.limits(it)?;
        self.n("MEMORY_TYPE", sp);
        Ok(())
    }
    fn table_type<'b>(&mut self, it: &mut &'b [Sx]) -> R<()> {
        let sp = self.limits(it)?;
        let r = self.reftype(it)?;
        self.n("TABLE_TYPE", Span::new(sp.s, r.e));
        Ok(())
    }
    fn offset_or_instr(&mut self, x: &Sx, kw: &str) -> R<()> {
        self.n(if kw == "item" { "ELEM_EXPR" } else { "OFFSET" }, x.sp());
        if self.head(x) == Some(kw) {
            let (_, _, i) = self.list(x, kw)?;
            let mut i = i;
            self.instrs(&mut i, &[])?;
            self.end(i)
        } else {
            self.folded(x).map(|_| ())
        }
    }
    fn field(&mut self, kind: &str, x: &Sx) -> R<()> {
        let (span, kw, mut it) = self.list(x, kind)?;
        let nk = match kind {
            "func" => "MODULE_FIELD_FUNC",
            "type" => "MODULE_FIELD_TYPE",
            "import" => "MODULE_FIELD_IMPORT",
            "export" => "MODULE_FIELD_EXPORT",
            "start" => "MODULE_FIELD_START",
            "memory" => "MODULE_FIELD_MEMORY",
            "table" => "MODULE_FIELD_TABLE",
            "global" => "MODULE_FIELD_GLOBAL",
            "data" => "MODULE_FIELD_DATA",
            "elem" => "MODULE_FIELD_ELEM",
            _ => return Err(format!("unknown field {kind}")),
        };
        self.n(nk, span);
        match kind {
            "func" => {
                let name = self.opt_id(&mut it);
                let imported = self.import_export(&mut it, true)?;
                let def = self.def(Space::Func, name, kw, span, span, imported);
                self.func = Some(self.d.funcs.len());
                self.d.funcs.push(Func { def, module: self.module, span, body: vec![] });
                let mut idx = 0;
                let (sig, tr) = self.type_use(&mut it, true, &mut idx)?;
                self.d.defs[def].sig = sig;
                self.d.defs[def].type_ref = tr;
                self.params(&mut it, "local", true, &mut idx, &mut Sig::default())?;
                let body = self.instrs(&mut it, &[])?;
                self.end(it)?;
                let f = self.func.take().unwrap();
                self.d.funcs[f].body = body;
            }
            "type" => {
                let name = self.opt_id(&mut it);
                let def = self.def(Space::Type, name, kw, span, span, false);
                let x = it.first().ok_or("func type")?;
                let (sp, _, mut i) = self.list(x, "func")?;
                self.n("FUNC_TYPE", sp);
                let mut sig = Sig::default();
                let mut idx = 0;
                self.params(&mut i, "param", false, &mut idx, &mut sig)?;
                self.results(&mut i, &mut sig)?;
                self.end(i)?;
                self.d.defs[def].sig = Some(sig);
                self.end(&it[1..])?;
            }
            "import" => {
                let a = self.atom(&mut it, TK::Str)?;
                let b = self.atom(&mut it, TK::Str)?;
                self.n("MODULE_NAME", a);
                self.n("NAME", b);
                let x = it.first().ok_or("desc")?;
                let k = self.head(x).ok_or("desc")?.to_string();
                let (sp, kw, mut i) = self.list(x, &k)?;
                let name = self.opt_id(&mut i);
                match k.as_str() {
                    "func" => {
                        self.n("IMPORT_DESC_TYPE_USE", sp);
                        let def = self.def(Space::Func, name, kw, sp, span, true);
                        let mut idx = 0;
                        let (sig, tr) = self.type_use(&mut i, false, &mut idx)?;
                        self.d.defs[def].sig = sig;
                        self.d.defs[def].type_ref = tr;
                    }
                    "global" => {
                        self.n("IMPORT_DESC_GLOBAL_TYPE", sp);
                        let def = self.def(Space::Global, name, kw, sp, span, true);
                        let (m, ty) = self.global_type(&mut i)?;
                        self.d.defs[def].mutable = m;
                        self.d.defs[def].ty = Some(ty);
                    }
                    "memory" => {
                        self.n("IMPORT_DESC_MEMORY_TYPE", sp);
                        self.def(Space::Mem, name, kw, sp, span, true);
                        self.memory_type(&mut i)?;
                    }
                    "table" => {
                        self.n("IMPORT_DESC_TABLE_TYPE", sp);
                        self.def(Space::Table, name, kw, sp, span, true);
                        self.table_type(&mut i)?;
                    }
                    _ => return Err("desc".into()),
                }
                self.end(i)?;
                self.end(&it[1..])?;
            }
            "export" => {
                let b = self.atom(&mut it, TK::Str)?;
                self.n("NAME", b);
                let x = it.first().ok_or("desc")?;
                let k = self.head(x).ok_or("desc")?.to_string();
                let (sp, _, mut i) = self.list(x, &k)?;
                self.n(
                    match k.as_str() {
                        "func" => "EXPORT_DESC_FUNC",
                        "global" => "EXPORT_DESC_GLOBAL",
                        "memory" => "EXPORT_DESC_MEMORY",
                        _ => "EXPORT_DESC_TABLE",
                    },
                    sp,
                );
                let space = match k.as_str() {
                    "func" => Space::Func,
                    "global" => Space::Global,
                    "memory" => Space::Mem,
                    "table" => Space::Table,
                    _ => return Err("desc".into()),
                };
                self.index(&mut i, space, true)?;
                self.end(i)?;
                self.end(&it[1..])?;
            }
            "start" => {
                self.index(&mut it, Space::Func, true)?;
                self.end(it)?;
            }
            "memory" => {
                let name = self.opt_id(&mut it);
                let imported = self.import_export(&mut it, false)?;
                self.def(Space::Mem, name, kw, span, span, imported);
                if let Some(x @ Sx::L { .. }) = it.first() {
                    let (sp, _, mut i) = self.list(x, "data")?;
                    self.n("DATA", sp);
                    while !i.is_empty() {
                        self.atom(&mut i, TK::Str)?;
                    }
                    self.end(&it[1..])?;
                } else {
                    self.memory_type(&mut it)?;
                    self.end(it)?;
                }
            }
            "table" => {
                let name = self.opt_id(&mut it);
                let imported = self.import_export(&mut it, false)?;
                self.def(Space::Table, name, kw, span, span, imported);
                if self.reftype(&mut it).is_ok() {
                    let x = it.first().ok_or("elem")?;
                    let (sp, _, mut i) = self.list(x, "elem")?;
                    self.n("ELEM", sp);
                    match i.first() {
                        Some(Sx::L { .. }) => {
                            for e in i {
                                self.offset_or_instr(e, "item")?;
                            }
                        }
                        _ => {
                            while !i.is_empty() {
                                self.index(&mut i, Space::Func, true)?;
                            }
                        }
                    }
                    self.end(&it[1..])?;
                } else {
                    self.table_type(&mut it)?;
                    self.end(it)?;
                }
            }
            "global" => {
                let name = self.opt_id(&mut it);
                let imported = self.import_export(&mut it, false)?;
                let def = self.def(Space::Global, name, kw, span, span, imported);
                let (m, ty) = self.global_type(&mut it)?;
                self.d.defs[def].mutable = m;
                self.d.defs[def].ty = Some(ty);
                let body = self.instrs(&mut it, &[])?;
                self.end(it)?;
                self.d.inits.push((def, body));
            }
            "data" => {
                self.opt_id(&mut it);
                if it.first().and_then(|x| self.head(x)) == Some("memory") {
                    let (sp, _, mut i) = self.list(&it[0], "memory")?;
                    self.n("MEM_USE", sp);
                    self.index(&mut i, Space::Mem, true)?;
                    self.end(i)?;
                    it = &it[1..];
                }
                if let Some(x @ Sx::L { .. }) = it.first() {
                    self.offset_or_instr(x, "offset")?;
                    it = &it[1..];
                }
                while !it.is_empty() {
                    self.atom(&mut it, TK::Str)?;
                }
            }
            "elem" => {
                self.opt_id(&mut it);
                let mut list_required = true;
                if let Some(Sx::A(t)) = it.first() {
                    if self.t(t.sp) == "declare" {
                        self.d.keywords.push(t.sp);
                        it = &it[1..];
                    }
                } else {
                    if it.first().and_then(|x| self.head(x)) == Some("table") {
                        let (sp, _, mut i) = self.list(&it[0], "table")?;
                        self.n("TABLE_USE", sp);
                        self.index(&mut i, Space::Table, true)?;
                        self.end(i)?;
                        it = &it[1..];
                    }
                    let x = it.first().ok_or("offset")?;
                    self.offset_or_instr(x, "offset")?;
                    it = &it[1..];
                    list_required = false;
                }
                if it.is_empty() {
                    return if list_required { Err("elem list".into()) } else { Ok(()) };
                }
                self.n("ELEM_LIST", Span::new(it[0].sp().s, it.last().unwrap().sp().e));
                if self.reftype(&mut it).is_ok() {
                    for e in it {
                        self.offset_or_instr(e, "item")?;
                    }
                } else {
                    if let Some(Sx::A(t)) = it.first() {
                        if self.t(t.sp) == "func" {
                            self.d.keywords.push(t.sp);
                            it = &it[1..];
                        }
                    }
                    while !it.is_empty() {
                        self.index(&mut it, Space::Func, true)?;
                    }
                }
            }
            _ => return Err(format!("unknown field {kind}")),
        }
        Ok(())
    }

    fn instrs<'b>(&mut self, it: &mut &'b [Sx], stop: &[&str]) -> R<Vec<Instr>> {
        let mut out = vec![];
        while let Some(x) = it.first() {
            match x {
                Sx::L { .. } => {
                    out.push(self.folded(x)?);
                    *it = &it[1..];
                }
                Sx::A(t) if t.k == TK::Word => {
                    if stop.contains(&self.t(t.sp)) {
                        break;
                    }
                    out.push(self.flat(it)?);
                }
                Sx::A(_) => return Err("instr expected".into()),
            }
        }
        Ok(out)
    }
    fn block_type<'b>(&mut self, it: &mut &'b [Sx]) -> R<()> {
        let all = *it;
        let mut idx = 0;
        let before = self.d.nodes.len();
        self.type_use(it, false, &mut idx)?;
        let used = &all[..all.len() - it.len()];
        if !used.is_empty() {
            let sp = Span::new(used[0].sp().s, used.last().unwrap().sp().e);
            self.n("BLOCK_TYPE", sp);
            if used.len() == 1 && self.head(&used[0]) == Some("result") {
                // a lone `(result ..)` is not wrapped into a type use
                let i = (before..self.d.nodes.len()).find(|i| self.d.nodes[*i].0 == "TYPE_USE").unwrap();
                self.d.nodes.remove(i);
            }
        }
        Ok(())
    }
    fn operand_node(&mut self, t: Tok) {
        self.n("OPERAND", t.sp);
        match t.k {
            TK::Num => {
                let k = if is_int(self.t(t.sp)) { "INT" } else { "FLOAT" };
                self.lf(k, t.sp);
            }
            TK::Word => {
                let k = if is_memarg(self.t(t.sp)) { "MEM_ARG" } else { "HEAP_TYPE" };
                self.lf(k, t.sp);
            }
            _ => {}
        }
    }
    fn extent(&self, v: &[Instr]) -> Option<Span> {
        Some(Span::new(v.first()?.span(&self.d).s, v.last()?.span(&self.d).e))
    }
    fn open_block(&mut self, kw: Span, folded: bool, label: Option<Span>) -> usize {
        self.d.blocks.push(Block {
            func: self.func,
            kind: self.t(kw).into(),
            folded,
            kw,
            span: kw,
            label,
            label_repeats: vec![],
            parent: self.block_stack.last().copied(),
            else_span: None,
        });
        self.d.keywords.push(kw);
        let b = self.d.blocks.len() - 1;
        self.block_stack.push(b);
        b
    }
    fn flat<'b>(&mut self, it: &mut &'b [Sx]) -> R<Instr> {
        let Sx::A(t) = &it[0] else { unreachable!() };
        let name = t.sp;
        *it = &it[1..];
        match self.t(name) {
            k @ ("block" | "loop" | "if") => {
                let label = self.opt_id(it);
                let b = self.open_block(name, false, label);
                self.block_type(it)?;
                let mut body = self.instrs(it, if k == "if" { &["end", "else"] } else { &["end"] })?;
                if k == "if" {
                    if let Some(sp) = self.extent(&body) {
                        self.n("BLOCK_IF_THEN", sp);
                    }
                    if let Some(Sx::A(e)) = it.first() {
                        if self.t(e.sp) == "else" {
                            self.d.keywords.push(e.sp);
                            *it = &it[1..];
                            let rep = self.opt_id(it);
                            let mut last = e.sp.e;
                            if let Some(r) = rep {
                                self.d.blocks[b].label_repeats.push(r);
                                last = r.e;
                            }
                            let eb = self.instrs(it, &["end"])?;
                            if let Some(i) = eb.last() {
                                last = i.span(&self.d).e;
                            }
                            self.d.blocks[b].else_span = Some(Span::new(e.sp.s, last));
                            self.n("BLOCK_IF_ELSE", Span::new(e.sp.s, last));
                            body.extend(eb);
                        }
                    }
                }
                let end = self.atom(it, TK::Word)?;
                if self.t(end) != "end" {
                    return Err("end".into());
                }
                self.d.keywords.push(end);
                let mut e = end.e;
                if let Some(r) = self.opt_id(it) {
                    self.d.blocks[b].label_repeats.push(r);
                    e = r.e;
                }
                self.d.blocks[b].span = Span::new(name.s, e);
                self.n(block_kind(k), Span::new(name.s, e));
                self.block_stack.pop();
                Ok(Instr::Block(b, body))
            }
            "end" | "else" | "then" => Err("stray keyword".into()),
            _ => {
                self.d.instr_names.push(name);
                let slot = self.d.plains.len();
                self.d.plains.push(Plain { name, span: name, folded: false, ops: vec![] });
                let mut ops = vec![];
                let mut e = name.e;
                while let Some(x) = it.first() {
                    match x {
                        Sx::A(t) if self.is_operand_atom(*t) => {
                            self.operand_node(*t);
                            ops.push(Opd::Lit(*t));
                            e = t.sp.e;
                            *it = &it[1..];
                        }
                        Sx::L { .. } if self.head(x) == Some("type") => {
                            let mut i: &[Sx] = it;
                            let mut idx = 0;
                            self.type_use(&mut i, false, &mut idx)?;
                            let used = &it[..it.len() - i.len()];
                            let sp = Span::new(used[0].sp().s, used.last().unwrap().sp().e);
                            e = sp.e;
                            self.n("OPERAND", sp);
                            ops.push(Opd::TypeUse(sp));
                            *it = i;
                        }
                        _ => break,
                    }
                }
                let p = Plain { name, span: Span::new(name.s, e), folded: false, ops };
                self.n("PLAIN_INSTR", p.span);
                self.operand_refs(&p);
                self.d.plains[slot] = p.clone();
                Ok(Instr::Plain(p))
            }
        }
    }
    fn is_operand_atom(&self, t: Tok) -> bool {
        match t.k {
            TK::Num | TK::Id | TK::Str => true,
            TK::Word => {
                let s = self.t(t.sp);
                is_memarg(s) || matches!(s, "func" | "extern")
            }
            _ => false,
        }
    }
    fn folded(&mut self, x: &Sx) -> R<Instr> {
        let Sx::L { sp, items } = x else { return Err("folded".into()) };
        let Some(Sx::A(t)) = items.first() else { return Err("folded head".into()) };
        if t.k != TK::Word {
            return Err("folded head".into());
        }
        let name = t.sp;
        let mut it: &[Sx] = &items[1..];
        match self.t(name) {
            "block" | "loop" => {
                let label = self.opt_id(&mut it);
                let b = self.open_block(name, true, label);
                self.block_type(&mut it)?;
                let body = self.instrs(&mut it, &[])?;
                self.end(it)?;
                self.d.blocks[b].span = *sp;
                self.n(block_kind(self.t(name)), *sp);
                self.block_stack.pop();
                Ok(Instr::Block(b, body))
            }
            "if" => {
                let label = self.opt_id(&mut it);
                let b = self.open_block(name, true, label);
                self.block_type(&mut it)?;
                let mut body = vec![];
                // the label is not in scope in the condition
                self.block_stack.pop();
                while let Some(x) = it.first() {
                    if self.head(x) == Some("then") {
                        break;
                    }
                    body.push(self.folded(x)?);
                    it = &it[1..];
                }
                self.block_stack.push(b);
                let then = it.first().ok_or("then")?;
                let (tsp, _, mut i) = self.list(then, "then")?;
                self.n("BLOCK_IF_THEN", tsp);
                body.extend(self.instrs(&mut i, &[])?);
                self.end(i)?;
                it = &it[1..];
                if let Some(x) = it.first() {
                    let (esp, _, mut i) = self.list(x, "else")?;
                    self.n("BLOCK_IF_ELSE", esp);
                    body.extend(self.instrs(&mut i, &[])?);
                    self.end(i)?;
                    it = &it[1..];
                }
                self.end(it)?;
                self.d.blocks[b].span = *sp;
                self.n("BLOCK_IF", *sp);
                self.block_stack.pop();
                Ok(Instr::Block(b, body))
            }
            "end" | "else" | "then" | "item" | "offset" | "param" | "result" | "local" | "type" | "export" | "import" | "module" | "memory" | "table" | "mut"
            | "func" | "global" | "data" | "elem" | "start" => Err(format!("not an instruction: {}", self.t(name))),
            _ => {
                self.d.instr_names.push(name);
                let slot = self.d.plains.len();
                self.d.plains.push(Plain { name, span: *sp, folded: true, ops: vec![] });
                let mut ops = vec![];
                while let Some(x) = it.first() {
                    match x {
                        Sx::A(t) if self.is_operand_atom(*t) => {
                            self.operand_node(*t);
                            ops.push(Opd::Lit(*t));
                            it = &it[1..];
                        }
                        Sx::A(_) => return Err("operand".into()),
                        Sx::L { .. } if self.head(x) == Some("type") => {
                            let all = it;
                            let mut idx = 0;
                            self.type_use(&mut it, false, &mut idx)?;
                            let used = &all[..all.len() - it.len()];
                            let tu = Span::new(used[0].sp().s, used.last().unwrap().sp().e);
                            self.n("OPERAND", tu);
                            ops.push(Opd::TypeUse(tu));
                        }
                        Sx::L { .. } => {
                            self.n("OPERAND", x.sp());
                            ops.push(Opd::Instr(self.folded(x)?));
                            it = &it[1..];
                        }
                    }
                }
                let p = Plain { name, span: *sp, folded: true, ops };
                self.n("PLAIN_INSTR", p.span);
                self.operand_refs(&p);
                self.d.plains[slot] = p.clone();
                Ok(Instr::Plain(p))
            }
        }
    }
    fn operand_refs(&mut self, p: &Plain) {
        let name = self.t(p.name).to_string();
        let lits: Vec<Span> = p
            .ops
            .iter()
            .filter_map(|o| match o {
                Opd::Lit(t) if matches!(t.k, TK::Id | TK::Num) => Some(t.sp),
                _ => None,
            })
            .collect();
        let space = match name.as_str() {
            "call" | "ref.func" | "return_call" => Some(Space::Func),
            "global.get" | "global.set" => Some(Space::Global),
            "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill" | "table.copy" => Some(Space::Table),
            _ => None,
        };
        match name.as_str() {
            "local.get" | "local.set" | "local.tee" => {
                if let Some(func) = self.func {
                    for tok in lits {
                        let id = self.ident(tok);
                        self.d.local_refs.push(LocalRef { func, tok, id, instr_name: name.clone() });
                    }
                }
            }
            "br" | "br_if" | "br_table" => {
                for tok in lits {
                    let id = self.ident(tok);
                    let mut chain = self.block_stack.clone();
                    chain.reverse();
                    self.d.block_refs.push(BlockRef { func: self.func, tok, id, chain });
                }
            }
            "call_indirect" | "return_call_indirect" => {
                if let Some(tok) = lits.first() {
                    self.add_ref(*tok, Space::Table, RefCtx::Instr, true, Some(p.span), Some(name));
                }
            }
            "table.init" => {
                if lits.len() == 2 {
                    self.add_ref(lits[0], Space::Table, RefCtx::Instr, true, Some(p.span), Some(name));
                }
            }
            _ => {
                if let Some(space) = space {
                    for tok in lits {
                        self.add_ref(tok, space, RefCtx::Instr, true, Some(p.span), Some(name.clone()));
                    }
                }
            }
        }
    }
}

fn block_kind(k: &str) -> &'static str {
    match k {
        "block" => "BLOCK_BLOCK",
        "loop" => "BLOCK_LOOP",
        _ => "BLOCK_IF",
    }
}

impl Doc {
    /// Expected leaves of the syntax tree, in order, trivia included.
    pub fn expected_leaves(&self) -> Result<Vec<(&'static str, Span)>, String> {
        let mut m: std::collections::HashMap<Span, &'static str> = Default::default();
        for k in &self.keywords {
            m.insert(*k, "KEYWORD");
        }
        for k in &self.instr_names {
            m.insert(*k, "INSTR_NAME");
        }
        for (k, sp) in &self.leaves {
            m.insert(*sp, k);
        }
        self.toks
            .iter()
            .map(|t| {
                let k = match t.k {
                    TK::L => "L_PAREN",
                    TK::R => "R_PAREN",
                    TK::Str => "STRING",
                    TK::Id => "IDENT",
                    TK::Ws => "WHITESPACE",
                    TK::LineC => "LINE_COMMENT",
                    TK::BlockC => "BLOCK_COMMENT",
                    _ => m.get(&t.sp).copied().ok_or_else(|| format!("no kind for {:?}", self.text(t.sp)))?,
                };
                Ok((k, t.sp))
            })
            .collect()
    }
    pub fn text(&self, sp: Span) -> &str {
        &self.src[sp.s..sp.e]
    }
    pub fn name_of(&self, d: &Def) -> Option<&str> {
        d.name.map(|s| self.text(s))
    }
    pub fn resolve(&self, r: &Ref) -> Vec<usize> {
        self.defs
            .iter()
            .enumerate()
            .filter(|(_, d)| {
                d.space == r.space
                    && d.module == r.module
                    && match &r.id {
                        Ident::Name(n) => d.name.is_some_and(|s| self.text(s) == n),
                        Ident::Num(k) => *k == if self.quirks.shared_index { d.shared } else { d.index },
                        Ident::Bad => false,
                    }
            })
            .map(|(i, _)| i)
            .collect()
    }
    /// Parameters a function has through its type reference only.
    pub fn type_params(&self, func: usize) -> Vec<String> {
        let d = &self.defs[self.funcs[func].def];
        if self.quirks.no_type_params || d.sig.is_some() {
            return vec![];
        }
        self.sig_of(self.funcs[func].def).map(|s| s.params.into_iter().map(|p| p.0).collect()).unwrap_or_default()
    }
    pub fn local_index(&self, l: &LocalDef) -> u32 {
        l.index + self.type_params(l.func).len() as u32
    }
    pub fn resolve_local(&self, r: &LocalRef) -> Local {
        if let Ident::Num(k) = r.id {
            if let Some(t) = self.type_params(r.func).get(k as usize) {
                return Local::FromType(t.clone());
            }
        }
        self.locals
            .iter()
            .position(|l| {
                l.func == r.func
                    && match &r.id {
                        Ident::Name(n) => l.name.is_some_and(|s| self.text(s) == n),
                        Ident::Num(k) => self.local_index(l) == *k,
                        Ident::Bad => false,
                    }
            })
            .map_or(Local::None, Local::Def)
    }
    /// Is the target of a branch known: a block, or the function body?
    pub fn branch_ok(&self, r: &BlockRef) -> bool {
        if self.resolve_block(r).is_some() {
            return true;
        }
        if r.chain.is_empty() && self.quirks.top_br {
            return true;
        }
        matches!(r.id, Ident::Num(k) if k as usize == r.chain.len()) && (r.chain.is_empty() || !self.quirks.no_func_label)
    }
    pub fn resolve_block(&self, r: &BlockRef) -> Option<usize> {
        match &r.id {
            Ident::Name(n) => r
                .chain
                .iter()
                .copied()
                .find(|b| self.blocks[*b].label.is_some_and(|s| self.text(s) == n)),
            Ident::Num(k) => r.chain.get(*k as usize).copied(),
            Ident::Bad => None,
        }
    }
    /// Signature of a function definition (explicit, else through its type reference).
    pub fn sig_of(&self, def: usize) -> Option<Sig> {
        let d = &self.defs[def];
        if let Some(s) = &d.sig {
            return Some(s.clone());
        }
        let r = &self.refs[d.type_ref?];
        let t = *self.resolve(r).first()?;
        self.defs[t].sig.clone()
    }
    pub fn sig_text(s: &Sig) -> String {
        let mut parts: Vec<String> = s
            .params
            .iter()
            .map(|(t, n)| match n {
                Some(n) => format!("(param {n} {t})"),
                None => format!("(param {t})"),
            })
            .collect();
        parts.extend(s.results.iter().map(|t| format!("(result {t})")));
        parts.join(" ")
    }
    pub fn func_header(&self, def: usize) -> String {
        let mut s = String::from("(func");
        if let Some(n) = self.defs[def].name {
            s.push(' ');
            s.push_str(self.text(n));
        }
        if let Some(sig) = self.sig_of(def) {
            let t = Self::sig_text(&sig);
            if !t.is_empty() {
                s.push(' ');
                s.push_str(&t);
            }
        }
        s.push(')');
        s
    }
    /// Innermost function that encloses an offset range.
    pub fn func_at(&self, sp: Span) -> Option<usize> {
        self.funcs.iter().position(|f| f.span.contains(sp))
    }
    /// The token a cursor at `off` designates: the one strictly containing it; at a boundary the one
    /// that is neither trivia nor a parenthesis, when exactly one side is.
    pub fn cursor(&self, off: usize) -> Option<Tok> {
        let meaningful = |t: &Tok| !t.trivia() && !matches!(t.k, TK::L | TK::R);
        let touching: Vec<&Tok> = self.toks.iter().filter(|t| t.sp.s <= off && off <= t.sp.e).collect();
        match touching.as_slice() {
            [] => None,
            [t] => Some(**t),
            [a, b] => match (meaningful(a), meaningful(b)) {
                (true, false) => Some(**a),
                (false, true) => Some(**b),
                _ => None,
            },
            _ => None,
        }
    }
}
