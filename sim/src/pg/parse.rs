//! SQL parser.
use super::ast::*;
use super::lex::*;

pub struct P<'a> {
    src: &'a str,
    t: Vec<Token>,
    i: usize,
    depth: usize,
}
type R<T> = Result<T, String>;

pub fn parse_one(src: &str) -> R<Stmt> {
    let mut v = parse_many(src)?;
    if v.len() > 1 {
        return Err("\u{1}cannot insert multiple commands into a prepared statement".into());
    }
    Ok(v.pop().map(|x| x.0).unwrap_or(Stmt::Empty))
}
/// statements with the text of each
pub fn parse_many(src: &str) -> R<Vec<(Stmt, String)>> {
    let mut p = P { src, t: lex(src)?, i: 0, depth: 0 };
    let mut out = vec![];
    loop {
        while p.op(";") {}
        if p.eof() {
            break;
        }
        let st = p.t[p.i].pos;
        let s = p.stmt()?;
        let en = p.t[p.i].pos;
        if !p.eof() && !p.peek_op(";") {
            return p.err();
        }
        out.push((s, src[st..en].trim_end().to_string()));
    }
    Ok(out)
}
pub fn parse_expr(src: &str) -> R<Expr> {
    let mut p = P { src, t: lex(src)?, i: 0, depth: 0 };
    let e = p.expr()?;
    if !p.eof() {
        return p.err();
    }
    Ok(e)
}
pub fn parse_type(src: &str) -> R<TypeName> {
    let mut p = P { src, t: lex(src)?, i: 0, depth: 0 };
    let e = p.typename()?;
    if !p.eof() {
        return p.err();
    }
    Ok(e)
}
pub fn parse_select(src: &str) -> R<Select> {
    let mut p = P { src, t: lex(src)?, i: 0, depth: 0 };
    let e = p.select()?;
    p.op(";");
    if !p.eof() {
        return p.err();
    }
    Ok(e)
}

impl<'a> P<'a> {
    fn err<T>(&self) -> R<T> {
        let t = &self.t[self.i];
        if t.t == Tok::Eof {
            Err("syntax error at end of input".into())
        } else {
            Err(format!("syntax error at or near \"{}\"", &self.src[t.pos..t.end]))
        }
    }
    fn eof(&self) -> bool {
        self.t[self.i].t == Tok::Eof
    }
    fn tok(&self) -> &Tok {
        &self.t[self.i].t
    }
    fn at(&self, k: usize) -> &Tok {
        &self.t[(self.i + k).min(self.t.len() - 1)].t
    }
    fn adv(&mut self) -> Tok {
        let t = self.t[self.i].t.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn peek_op(&self, o: &str) -> bool {
        matches!(self.tok(), Tok::Op(x) if x == o)
    }
    fn op(&mut self, o: &str) -> bool {
        if self.peek_op(o) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn xop(&mut self, o: &str) -> R<()> {
        if self.op(o) {
            Ok(())
        } else {
            self.err()
        }
    }
    fn peek_kw(&self, k: &str) -> bool {
        self.kw_at(0, k)
    }
    fn kw_at(&self, n: usize, k: &str) -> bool {
        matches!(self.at(n), Tok::Id(x, false) if x == k)
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.peek_kw(k) {
            self.adv();
            true
        } else {
            false
        }
    }
    /// a sequence of keywords, all or nothing
    fn kws(&mut self, ks: &str) -> bool {
        let v: Vec<&str> = ks.split(' ').collect();
        if v.iter().enumerate().all(|(n, k)| self.kw_at(n, k)) {
            self.i += v.len();
            true
        } else {
            false
        }
    }
    fn xkw(&mut self, k: &str) -> R<()> {
        if self.kws(k) {
            Ok(())
        } else {
            self.err()
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.tok().clone() {
            Tok::Id(s, q) if q || (!RESERVED.contains(&s.as_str()) && !RESERVED_FT.contains(&s.as_str())) => {
                self.adv();
                Ok(trunc(s))
            }
            _ => self.err(),
        }
    }
    fn label(&mut self) -> R<String> {
        match self.tok().clone() {
            Tok::Id(s, _) => {
                self.adv();
                Ok(trunc(s))
            }
            _ => self.err(),
        }
    }
    fn qname(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.ident()?];
        while self.op(".") {
            v.push(self.label()?);
        }
        Ok(v)
    }
    fn idents(&mut self) -> R<Vec<String>> {
        self.xop("(")?;
        let mut v = vec![self.ident()?];
        while self.op(",") {
            v.push(self.ident()?);
        }
        self.xop(")")?;
        Ok(v)
    }
    fn string(&mut self) -> R<String> {
        match self.tok().clone() {
            Tok::Str(s) => {
                self.adv();
                Ok(s)
            }
            _ => self.err(),
        }
    }
    fn int(&mut self) -> R<i64> {
        let neg = self.op("-");
        if !neg {
            self.op("+");
        }
        match self.tok().clone() {
            Tok::Num(s) => {
                let v: i128 = match s.parse() {
                    Ok(v) => v,
                    Err(_) => return self.err(),
                };
                self.adv();
                let v = if neg { -v } else { v };
                if v < i64::MIN as i128 || v > i64::MAX as i128 {
                    return Err(format!("\u{2}value \"{}\" is out of range for type bigint", v));
                }
                Ok(v as i64)
            }
            _ => self.err(),
        }
    }

    // ---- types
    pub fn typename(&mut self) -> R<TypeName> {
        let setof = self.kw("setof");
        let mut name;
        let mut mods = vec![];
        match self.tok().clone() {
            Tok::Id(s, false) => {
                let two = |p: &mut Self| -> R<Vec<i64>> {
                    let mut m = vec![];
                    if p.op("(") {
                        m.push(p.int()?);
                        while p.op(",") {
                            m.push(p.int()?);
                        }
                        p.xop(")")?;
                    }
                    Ok(m)
                };
                match s.as_str() {
                    "int" | "integer" => {
                        self.adv();
                        name = vec!["int4".to_string()];
                    }
                    "smallint" => {
                        self.adv();
                        name = vec!["int2".to_string()];
                    }
                    "bigint" => {
                        self.adv();
                        name = vec!["int8".to_string()];
                    }
                    "real" => {
                        self.adv();
                        name = vec!["float4".to_string()];
                    }
                    "boolean" => {
                        self.adv();
                        name = vec!["bool".to_string()];
                    }
                    "double" => {
                        self.adv();
                        self.xkw("precision")?;
                        name = vec!["float8".to_string()];
                    }
                    "float" => {
                        self.adv();
                        let m = two(self)?;
                        name = vec![if m.first().map_or(false, |x| *x <= 24) { "float4" } else { "float8" }.to_string()];
                    }
                    "decimal" | "numeric" | "dec" => {
                        self.adv();
                        mods = two(self)?;
                        name = vec!["numeric".to_string()];
                    }
                    "character" | "char" | "nchar" => {
                        self.adv();
                        if self.kw("varying") {
                            name = vec!["varchar".to_string()];
                            mods = two(self)?;
                        } else {
                            name = vec!["bpchar".to_string()];
                            mods = two(self)?;
                            if mods.is_empty() {
                                mods = vec![1];
                            }
                        }
                    }
                    "bit" => {
                        self.adv();
                        if self.kw("varying") {
                            name = vec!["varbit".to_string()];
                            mods = two(self)?;
                        } else {
                            name = vec!["bit".to_string()];
                            mods = two(self)?;
                            if mods.is_empty() {
                                mods = vec![1];
                            }
                        }
                    }
                    "interval" => {
                        self.adv();
                        name = vec!["interval".to_string()];
                        let f = super::types::FIELDS.iter().find(|f| self.kws(f.0)).map_or(0x7fff, |f| f.1);
                        let k = if f & 4096 != 0 { two(self)? } else { vec![] };
                        if f != 0x7fff || !k.is_empty() {
                            mods = vec![(f as i64) << 16 | k.first().map_or(0xffff, |k| (*k).clamp(0, 6))];
                        }
                    }
                    "timestamp" | "time" => {
                        self.adv();
                        mods = two(self)?;
                        let tz = if self.kws("with time zone") {
                            true
                        } else {
                            self.kws("without time zone");
                            false
                        };
                        name = vec![format!("{}{}", s, if tz { "tz" } else { "" })];
                    }
                    _ => {
                        if RESERVED.contains(&s.as_str()) {
                            return self.err();
                        }
                        name = vec![self.label()?];
                        while self.op(".") {
                            name.push(self.label()?);
                        }
                        mods = two(self)?;
                    }
                }
            }
            Tok::Id(_, true) => {
                name = vec![self.label()?];
                while self.op(".") {
                    name.push(self.label()?);
                }
                if self.op("(") {
                    mods.push(self.int()?);
                    while self.op(",") {
                        mods.push(self.int()?);
                    }
                    self.xop(")")?;
                }
            }
            _ => return self.err(),
        }
        let mut array = false;
        while self.peek_op("[") {
            self.adv();
            if let Tok::Num(_) = self.tok() {
                self.adv();
            }
            self.xop("]")?;
            array = true;
        }
        if self.kw("array") {
            array = true;
        }
        if name.len() == 1 && name[0] == "serial" {
            name = vec!["serial4".into()];
        }
        if name.len() == 1 && name[0] == "bigserial" {
            name = vec!["serial8".into()];
        }
        Ok(TypeName { name, mods, array, setof })
    }

    // ---- expressions
    pub fn expr(&mut self) -> R<Expr> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("stack depth limit exceeded".into());
        }
        let r = self.or();
        self.depth -= 1;
        r
    }
    fn or(&mut self) -> R<Expr> {
        let mut l = self.and()?;
        while self.kw("or") {
            let r = self.and()?;
            l = Expr::Or(Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn and(&mut self) -> R<Expr> {
        let mut l = self.not()?;
        while self.kw("and") {
            let r = self.not()?;
            l = Expr::And(Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn not(&mut self) -> R<Expr> {
        if self.kw("not") {
            Ok(Expr::Not(Box::new(self.not()?)))
        } else {
            self.is()
        }
    }
    fn is(&mut self) -> R<Expr> {
        let mut l = self.cmp()?;
        loop {
            if self.kw("isnull") {
                l = Expr::IsNull(Box::new(l), false);
            } else if self.kw("notnull") {
                l = Expr::IsNull(Box::new(l), true);
            } else if self.kw("is") {
                let n = self.kw("not");
                l = if self.kw("null") {
                    Expr::IsNull(Box::new(l), n)
                } else if self.kw("true") {
                    Expr::IsBool(Box::new(l), true, n)
                } else if self.kw("false") {
                    Expr::IsBool(Box::new(l), false, n)
                } else if self.kws("distinct from") {
                    let r = self.cmp()?;
                    Expr::IsDistinct(Box::new(l), Box::new(r), n)
                } else {
                    return self.err();
                };
            } else {
                return Ok(l);
            }
        }
    }
    fn cmp(&mut self) -> R<Expr> {
        let l = self.inlike()?;
        let o = match self.tok() {
            Tok::Op(o) if ["=", "<", ">", "<=", ">=", "<>"].contains(&o.as_str()) => o.clone(),
            _ => return Ok(l),
        };
        self.adv();
        if self.peek_kw("any") || self.peek_kw("some") || self.peek_kw("all") {
            let all = self.peek_kw("all");
            self.adv();
            self.xop("(")?;
            let r = if self.peek_kw("select") { Expr::ArraySub(Box::new(self.select()?)) } else { self.expr()? };
            self.xop(")")?;
            return Ok(Expr::Any(o, Box::new(l), Box::new(r), all));
        }
        let r = self.inlike()?;
        Ok(Expr::Bin(o, Box::new(l), Box::new(r)))
    }
    fn inlike(&mut self) -> R<Expr> {
        let mut l = self.other()?;
        loop {
            let neg = self.peek_kw("not") && (self.kw_at(1, "in") || self.kw_at(1, "like") || self.kw_at(1, "ilike") || self.kw_at(1, "between"));
            if neg {
                self.adv();
            }
            if self.kw("in") {
                self.xop("(")?;
                if self.peek_kw("select") {
                    let q = self.select()?;
                    self.xop(")")?;
                    l = Expr::InSub(Box::new(l), Box::new(q), neg);
                } else {
                    let mut v = vec![self.expr()?];
                    while self.op(",") {
                        v.push(self.expr()?);
                    }
                    self.xop(")")?;
                    l = Expr::In(Box::new(l), v, neg);
                }
            } else if self.kw("between") {
                let a = self.other()?;
                self.xkw("and")?;
                let b = self.other()?;
                l = Expr::Between(Box::new(l), Box::new(a), Box::new(b), neg);
            } else if self.kw("like") {
                let r = self.other()?;
                l = Expr::Bin(if neg { "!~~" } else { "~~" }.into(), Box::new(l), Box::new(r));
            } else if self.kw("ilike") {
                let r = self.other()?;
                l = Expr::Bin(if neg { "!~~*" } else { "~~*" }.into(), Box::new(l), Box::new(r));
            } else {
                return Ok(l);
            }
        }
    }
    fn other(&mut self) -> R<Expr> {
        let mut l = self.add()?;
        loop {
            let o = match self.tok() {
                Tok::Op(o) if !["=", "<", ">", "<=", ">=", "<>", "+", "-", "*", "/", "%", "^", "::", ".", ",", ";", "(", ")", "[", "]", ":", ":="].contains(&o.as_str()) => o.clone(),
                _ => return Ok(l),
            };
            self.adv();
            let r = self.add()?;
            l = Expr::Bin(o, Box::new(l), Box::new(r));
        }
    }
    fn add(&mut self) -> R<Expr> {
        let mut l = self.mul()?;
        loop {
            let o = match self.tok() {
                Tok::Op(o) if o == "+" || o == "-" => o.clone(),
                _ => return Ok(l),
            };
            self.adv();
            let r = self.mul()?;
            l = Expr::Bin(o, Box::new(l), Box::new(r));
        }
    }
    fn mul(&mut self) -> R<Expr> {
        let mut l = self.unary()?;
        loop {
            let o = match self.tok() {
                Tok::Op(o) if o == "*" || o == "/" || o == "%" || o == "^" => o.clone(),
                _ => return Ok(l),
            };
            self.adv();
            let r = self.unary()?;
            l = Expr::Bin(o, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self) -> R<Expr> {
        if self.op("-") {
            let e = self.unary()?;
            if let Expr::Num(n) = &e {
                return Ok(Expr::Num(match n.strip_prefix('-') {
                    Some(p) => p.to_string(),
                    None => format!("-{}", n),
                }));
            }
            return Ok(Expr::Un("-".into(), Box::new(e)));
        }
        if self.op("+") {
            return self.unary();
        }
        if self.op("~") {
            let e = self.unary()?;
            return Ok(Expr::Un("~".into(), Box::new(e)));
        }
        self.postfix()
    }
    fn postfix(&mut self) -> R<Expr> {
        let mut e = self.primary()?;
        loop {
            if self.op("::") {
                let t = self.typename()?;
                e = Expr::Cast(Box::new(e), t);
            } else if self.peek_op("[") {
                self.adv();
                let x = self.expr()?;
                self.xop("]")?;
                e = Expr::Index(Box::new(e), Box::new(x));
            } else if self.kw("collate") {
                self.qname()?;
            } else if self.peek_kw("at") && self.kw_at(1, "time") && self.kw_at(2, "zone") {
                self.i += 3;
                let z = self.primary()?;
                e = Expr::Func { name: vec!["timezone".into()], args: vec![z, e], star: false, distinct: false, order: vec![], filter: None };
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> R<Expr> {
        match self.tok().clone() {
            Tok::Num(n) => {
                self.adv();
                Ok(Expr::Num(n))
            }
            Tok::Str(s) => {
                self.adv();
                // adjacent literals on separate lines are not supported
                Ok(Expr::Str(s))
            }
            Tok::Param(n) => {
                self.adv();
                if n == 0 {
                    return Err("\u{3}there is no parameter $0".into());
                }
                Ok(Expr::Param(n))
            }
            Tok::Op(o) if o == "(" => {
                self.adv();
                if self.peek_kw("select") || self.peek_kw("values") || self.peek_kw("with") {
                    let q = self.select()?;
                    self.xop(")")?;
                    return Ok(Expr::Sub(Box::new(q)));
                }
                let e = self.expr()?;
                if self.op(",") {
                    let mut v = vec![e, self.expr()?];
                    while self.op(",") {
                        v.push(self.expr()?);
                    }
                    self.xop(")")?;
                    return Ok(Expr::Row(v));
                }
                self.xop(")")?;
                // a parenthesised number is not part of a negative literal, but the value is the same
                Ok(e)
            }
            Tok::Op(o) if o == "*" => {
                self.adv();
                Ok(Expr::Star(vec![]))
            }
            Tok::Id(s, false) => {
                match s.as_str() {
                    "null" => {
                        self.adv();
                        return Ok(Expr::Null);
                    }
                    "true" | "false" => {
                        self.adv();
                        return Ok(Expr::Bool(s == "true"));
                    }
                    "case" => {
                        self.adv();
                        let arg = if self.peek_kw("when") { None } else { Some(Box::new(self.expr()?)) };
                        let mut w = vec![];
                        while self.kw("when") {
                            let c = self.expr()?;
                            self.xkw("then")?;
                            let v = self.expr()?;
                            w.push((c, v));
                        }
                        if w.is_empty() {
                            return self.err();
                        }
                        let els = if self.kw("else") { Some(Box::new(self.expr()?)) } else { None };
                        self.xkw("end")?;
                        return Ok(Expr::Case(arg, w, els));
                    }
                    "cast" => {
                        self.adv();
                        self.xop("(")?;
                        let e = self.expr()?;
                        self.xkw("as")?;
                        let t = self.typename()?;
                        self.xop(")")?;
                        return Ok(Expr::Cast(Box::new(e), t));
                    }
                    "exists" if matches!(self.at(1), Tok::Op(o) if o == "(") => {
                        self.adv();
                        self.xop("(")?;
                        let q = self.select()?;
                        self.xop(")")?;
                        return Ok(Expr::Exists(Box::new(q)));
                    }
                    "array" => {
                        self.adv();
                        if self.op("[") {
                            let mut v = vec![];
                            if !self.peek_op("]") {
                                v.push(self.expr()?);
                                while self.op(",") {
                                    v.push(self.expr()?);
                                }
                            }
                            self.xop("]")?;
                            return Ok(Expr::Array(v));
                        }
                        self.xop("(")?;
                        let q = self.select()?;
                        self.xop(")")?;
                        return Ok(Expr::ArraySub(Box::new(q)));
                    }
                    "row" if matches!(self.at(1), Tok::Op(o) if o == "(") => {
                        self.adv();
                        self.xop("(")?;
                        let mut v = vec![self.expr()?];
                        while self.op(",") {
                            v.push(self.expr()?);
                        }
                        self.xop(")")?;
                        return Ok(Expr::Row(v));
                    }
                    "current_timestamp" | "localtimestamp" | "current_date" | "current_time" | "localtime" | "current_user" | "session_user" | "user" | "current_role" | "current_catalog"
                    | "current_schema" => {
                        if !(s == "current_schema" && matches!(self.at(1), Tok::Op(o) if o == "(")) {
                            self.adv();
                            return Ok(Expr::Special(s));
                        }
                    }
                    "substring" | "trim" | "position" | "extract" | "overlay" if matches!(self.at(1), Tok::Op(o) if o == "(") => {
                        self.adv();
                        self.xop("(")?;
                        if s == "trim" {
                            let mut f = "btrim";
                            if self.kw("leading") {
                                f = "ltrim";
                            } else if self.kw("trailing") {
                                f = "rtrim";
                            } else {
                                self.kw("both");
                            }
                            let mut a = vec![];
                            if !self.peek_kw("from") {
                                a.push(self.expr()?);
                            }
                            if self.kw("from") {
                                let x = self.expr()?;
                                a.insert(0, x);
                            }
                            while self.op(",") {
                                a.push(self.expr()?);
                            }
                            self.xop(")")?;
                            return Ok(fcall(f, a));
                        }
                        let mut a = vec![self.add()?];
                        if s == "position" && self.kw("in") {
                            let x = self.expr()?;
                            a.insert(0, x);
                            self.xop(")")?;
                            return Ok(fcall("strpos", a));
                        }
                        if self.kw("from") {
                            a.push(self.expr()?);
                            if self.kw("for") {
                                a.push(self.expr()?);
                            }
                        } else if self.kw("for") {
                            a.push(Expr::Num("1".into()));
                            a.push(self.expr()?);
                        }
                        while self.op(",") {
                            a.push(self.expr()?);
                        }
                        self.xop(")")?;
                        return Ok(fcall(&s, a));
                    }
                    _ => {}
                }
                if RESERVED.contains(&s.as_str()) {
                    return self.err();
                }
                // typed literal: type 'text'
                if let Tok::Str(lit) = self.at(1).clone() {
                    let t = TypeName { name: vec![s.clone()], mods: vec![], array: false, setof: false };
                    self.adv();
                    self.adv();
                    return Ok(Expr::Cast(Box::new(Expr::Str(lit)), t));
                }
                if RESERVED_FT.contains(&s.as_str()) && !matches!(self.at(1), Tok::Op(o) if o == "(") {
                    return self.err();
                }
                self.name_expr()
            }
            Tok::Id(_, true) => self.name_expr(),
            _ => self.err(),
        }
    }
    fn name_expr(&mut self) -> R<Expr> {
        if let Tok::Id(s, false) = self.tok() {
            if RESERVED.contains(&s.as_str()) {
                return self.err();
            }
        }
        let mut v = vec![self.label()?];
        loop {
            if self.peek_op(".") {
                self.adv();
                if self.op("*") {
                    return Ok(Expr::Star(v));
                }
                v.push(self.label()?);
            } else {
                break;
            }
        }
        if self.op("(") {
            let mut args = vec![];
            let (mut star, mut distinct) = (false, false);
            let mut order = vec![];
            if self.op("*") {
                star = true;
            } else if !self.peek_op(")") {
                distinct = self.kw("distinct");
                self.kw("variadic");
                args.push(self.expr()?);
                while self.op(",") {
                    args.push(self.expr()?);
                }
                if self.kws("order by") {
                    order = self.orderlist()?;
                }
            }
            self.xop(")")?;
            let mut filter = None;
            if self.peek_kw("filter") && matches!(self.at(1), Tok::Op(o) if o == "(") {
                self.adv();
                self.xop("(")?;
                self.xkw("where")?;
                filter = Some(Box::new(self.expr()?));
                self.xop(")")?;
            }
            return Ok(Expr::Func { name: v, args, star, distinct, order, filter });
        }
        Ok(Expr::Col(v))
    }
    fn orderlist(&mut self) -> R<Vec<OrderBy>> {
        let mut v = vec![];
        loop {
            let expr = self.expr()?;
            let desc = if self.kw("desc") {
                true
            } else {
                self.kw("asc");
                false
            };
            let nulls_first = self.nulls()?;
            v.push(OrderBy { expr, desc, nulls_first });
            if !self.op(",") {
                return Ok(v);
            }
        }
    }
    fn nulls(&mut self) -> R<Option<bool>> {
        if self.kw("nulls") {
            if self.kw("first") {
                return Ok(Some(true));
            }
            self.xkw("last")?;
            return Ok(Some(false));
        }
        Ok(None)
    }

    // ---- queries
    pub fn select(&mut self) -> R<Select> {
        let mut with = vec![];
        if self.kw("with") {
            loop {
                let n = self.ident()?;
                let cols = if self.peek_op("(") { self.idents()? } else { vec![] };
                self.xkw("as")?;
                if !self.kw("materialized") {
                    self.kws("not materialized");
                }
                self.xop("(")?;
                let q = self.select()?;
                self.xop(")")?;
                with.push((n, cols, q));
                if !self.op(",") {
                    break;
                }
            }
        }
        let mut l = self.select_core()?;
        while self.peek_kw("union") || self.peek_kw("intersect") || self.peek_kw("except") {
            let k = self.label()?;
            let all = self.kw("all");
            let r = self.select_core()?;
            l = Select { union: Some((k, all, Box::new(l), Box::new(r))), ..Default::default() };
        }
        if self.kws("order by") {
            l.order = self.orderlist()?;
        }
        loop {
            if self.kw("limit") {
                l.limit = if self.kw("all") { None } else { Some(self.expr()?) };
            } else if self.kw("offset") {
                l.offset = Some(self.expr()?);
                if !self.kw("rows") {
                    self.kw("row");
                }
            } else if self.kw("fetch") {
                if !self.kw("first") {
                    self.xkw("next")?;
                }
                l.limit = Some(if self.peek_kw("row") || self.peek_kw("rows") { Expr::Num("1".into()) } else { self.expr()? });
                if !self.kw("rows") {
                    self.kw("row");
                }
                self.xkw("only")?;
            } else if self.peek_kw("for") && (self.kw_at(1, "update") || self.kw_at(1, "share") || self.kw_at(1, "no") || self.kw_at(1, "key")) {
                self.adv();
                let mut s = self.label()?;
                if s == "no" {
                    self.xkw("key update")?;
                    s = "update".into();
                } else if s == "key" {
                    self.xkw("share")?;
                    s = "share".into();
                }
                if self.kw("nowait") {
                    s.push_str(" nowait");
                }
                l.for_update = Some(s);
            } else {
                break;
            }
        }
        l.with = with;
        Ok(l)
    }
    fn select_core(&mut self) -> R<Select> {
        if self.op("(") {
            let q = self.select()?;
            self.xop(")")?;
            return Ok(q);
        }
        let mut s = Select::default();
        if self.kw("values") {
            loop {
                self.xop("(")?;
                let mut r = vec![self.val_or_default()?];
                while self.op(",") {
                    r.push(self.val_or_default()?);
                }
                self.xop(")")?;
                s.values.push(r);
                if !self.op(",") {
                    break;
                }
            }
            return Ok(s);
        }
        self.xkw("select")?;
        s.distinct = self.kw("distinct");
        if !s.distinct {
            self.kw("all");
        }
        if !(self.peek_kw("from") || self.eof() || self.peek_op(";")) {
            s.targets = self.targets()?;
        }
        if self.kw("from") {
            loop {
                s.from.push(self.from_item()?);
                if !self.op(",") {
                    break;
                }
            }
        }
        if self.kw("where") {
            s.wher = Some(self.expr()?);
        }
        if self.kws("group by") {
            s.group.push(self.expr()?);
            while self.op(",") {
                s.group.push(self.expr()?);
            }
        }
        if self.kw("having") {
            s.having = Some(self.expr()?);
        }
        Ok(s)
    }
    fn val_or_default(&mut self) -> R<Expr> {
        if self.kw("default") {
            return Ok(Expr::Special("default".into()));
        }
        self.expr()
    }
    fn targets(&mut self) -> R<Vec<(Expr, Option<String>)>> {
        let mut v = vec![];
        loop {
            let e = self.expr()?;
            let a = if self.kw("as") {
                Some(self.label()?)
            } else {
                match self.tok() {
                    Tok::Id(_, true) => Some(self.label()?),
                    Tok::Id(s, false) if !RESERVED.contains(&s.as_str()) && !RESERVED_FT.contains(&s.as_str()) => Some(self.label()?),
                    _ => None,
                }
            };
            v.push((e, a));
            if !self.op(",") {
                return Ok(v);
            }
        }
    }
    fn from_item(&mut self) -> R<From> {
        let mut l = self.from_prim()?;
        loop {
            let natural = false;
            let kind = if self.kws("cross join") {
                JoinKind::Cross
            } else if self.kws("inner join") || self.kw("join") {
                JoinKind::Inner
            } else if self.kws("left outer join") || self.kws("left join") {
                JoinKind::Left
            } else if self.kws("right outer join") || self.kws("right join") {
                JoinKind::Right
            } else if self.kws("full outer join") || self.kws("full join") {
                JoinKind::Full
            } else {
                return Ok(l);
            };
            let _ = natural;
            let r = self.from_prim()?;
            let (mut on, mut using) = (None, vec![]);
            if kind != JoinKind::Cross {
                if self.kw("using") {
                    using = self.idents()?;
                } else {
                    // a join may be nested in its right operand: a JOIN b JOIN c ON .. ON ..
                    if self.peek_kw("on") {
                        self.adv();
                        on = Some(self.expr()?);
                    } else {
                        return self.err();
                    }
                }
            }
            l = From::Join { kind, l: Box::new(l), r: Box::new(r), on, using };
        }
    }
    fn alias(&mut self) -> R<(Option<String>, Vec<String>)> {
        let a = if self.kw("as") {
            Some(self.label()?)
        } else {
            match self.tok() {
                Tok::Id(_, true) => Some(self.label()?),
                Tok::Id(s, false) if !RESERVED.contains(&s.as_str()) && !RESERVED_FT.contains(&s.as_str()) && s != "set" => Some(self.label()?),
                _ => None,
            }
        };
        let mut cols = vec![];
        if a.is_some() && self.peek_op("(") {
            cols = self.idents()?;
        }
        Ok((a, cols))
    }
    fn from_prim(&mut self) -> R<From> {
        let lateral = self.kw("lateral");
        if self.op("(") {
            if self.peek_kw("select") || self.peek_kw("values") || self.peek_kw("with") {
                let q = self.select()?;
                self.xop(")")?;
                let (alias, cols) = self.alias()?;
                return Ok(From::Sub { q: Box::new(q), alias, cols });
            }
            if lateral {
                return self.err();
            }
            let f = self.from_item()?;
            self.xop(")")?;
            return Ok(f);
        }
        self.kw("only");
        let save = self.i;
        let mut name = vec![self.label()?];
        while self.op(".") {
            name.push(self.label()?);
        }
        if self.peek_op("(") {
            self.i = save;
            let call = self.name_expr()?;
            let ord = self.kws("with ordinality");
            let (alias, cols) = self.alias()?;
            return Ok(From::Func { call, alias, cols, ord });
        }
        self.i = save;
        let name = self.qname()?;
        let (alias, cols) = self.alias()?;
        Ok(From::Rel { name, alias, cols })
    }

    // ---- statements
    fn if_exists(&mut self) -> bool {
        self.kws("if exists")
    }
    fn cascade(&mut self) -> bool {
        if self.kw("cascade") {
            return true;
        }
        self.kw("restrict");
        false
    }
    fn tx_modes(&mut self) -> R<(Option<String>, Option<bool>)> {
        let (mut iso, mut ro) = (None, None);
        loop {
            if self.kws("isolation level") {
                iso = Some(if self.kws("read committed") {
                    "rc".to_string()
                } else if self.kws("read uncommitted") {
                    "rc".to_string()
                } else if self.kws("repeatable read") {
                    "rr".to_string()
                } else {
                    self.xkw("serializable")?;
                    "ser".to_string()
                });
            } else if self.kws("read only") {
                ro = Some(true);
            } else if self.kws("read write") {
                ro = Some(false);
            } else if self.kw("deferrable") || self.kws("not deferrable") {
            } else {
                return Ok((iso, ro));
            }
            self.op(",");
        }
    }
    pub fn stmt(&mut self) -> R<Stmt> {
        if self.peek_kw("select") || self.peek_kw("values") || self.peek_kw("with") || self.peek_op("(") {
            return Ok(Stmt::Select(self.select()?));
        }
        let k = match self.tok() {
            Tok::Id(s, false) => s.clone(),
            _ => return self.err(),
        };
        match k.as_str() {
            "begin" | "start" => {
                self.adv();
                if k == "start" {
                    self.xkw("transaction")?;
                } else if !self.kw("transaction") {
                    self.kw("work");
                }
                let (iso, read_only) = self.tx_modes()?;
                Ok(Stmt::Begin { iso, read_only })
            }
            "commit" | "end" => {
                self.adv();
                if !self.kw("transaction") {
                    self.kw("work");
                }
                Ok(Stmt::Commit)
            }
            "rollback" | "abort" => {
                self.adv();
                if !self.kw("transaction") {
                    self.kw("work");
                }
                if self.kw("to") {
                    self.kw("savepoint");
                    return Ok(Stmt::RollbackTo(self.ident()?));
                }
                Ok(Stmt::Rollback)
            }
            "savepoint" => {
                self.adv();
                Ok(Stmt::Savepoint(self.ident()?))
            }
            "release" => {
                self.adv();
                self.kw("savepoint");
                Ok(Stmt::Release(self.ident()?))
            }
            "set" => {
                self.adv();
                if self.kw("transaction") || self.kws("session characteristics as transaction") {
                    let (iso, read_only) = self.tx_modes()?;
                    return Ok(Stmt::SetTransaction { iso, read_only });
                }
                if !self.kw("local") {
                    self.kw("session");
                }
                let mut n = self.label()?;
                while self.op(".") {
                    n = format!("{}.{}", n, self.label()?);
                }
                if !self.op("=") {
                    self.xkw("to")?;
                }
                let st = self.t[self.i].pos;
                while !self.eof() && !self.peek_op(";") {
                    self.adv();
                }
                Ok(Stmt::Set(n, self.src[st..self.t[self.i].pos].trim().to_string()))
            }
            "show" => {
                self.adv();
                let mut n = self.label()?;
                while let Tok::Id(s, _) = self.tok().clone() {
                    n = format!("{} {}", n, s);
                    self.adv();
                }
                Ok(Stmt::Show(n))
            }
            "lock" => {
                self.adv();
                self.kw("table");
                let mut tables = vec![self.qname()?];
                while self.op(",") {
                    tables.push(self.qname()?);
                }
                let mut mode = 8;
                if self.kw("in") {
                    mode = if self.kws("access share") {
                        1
                    } else if self.kws("row share") {
                        2
                    } else if self.kws("row exclusive") {
                        3
                    } else if self.kws("share update exclusive") {
                        4
                    } else if self.kws("share row exclusive") {
                        6
                    } else if self.kw("share") {
                        5
                    } else if self.kws("access exclusive") {
                        8
                    } else {
                        self.xkw("exclusive")?;
                        7
                    };
                    self.xkw("mode")?;
                }
                let nowait = self.kw("nowait");
                Ok(Stmt::Lock { tables, mode, nowait })
            }
            "create" => {
                self.adv();
                self.create()
            }
            "drop" => {
                self.adv();
                self.drop()
            }
            "alter" => {
                self.adv();
                self.alter()
            }
            "comment" | "grant" | "revoke" | "analyze" | "discard" => {
                while !self.eof() && !self.peek_op(";") {
                    self.adv();
                }
                Ok(Stmt::Comment)
            }
            "truncate" => {
                self.adv();
                self.kw("table");
                let mut v = vec![self.qname()?];
                while self.op(",") {
                    v.push(self.qname()?);
                }
                Ok(Stmt::Truncate(v))
            }
            "insert" => {
                self.adv();
                self.xkw("into")?;
                let table = self.qname()?;
                let cols = if self.peek_op("(") && !self.kw_at(1, "select") { self.idents()? } else { vec![] };
                let mut defaults = false;
                let src = if self.kws("default values") {
                    defaults = true;
                    Select::default()
                } else {
                    self.select()?
                };
                let mut nothing = false;
                if self.kws("on conflict") {
                    if self.peek_op("(") {
                        self.idents()?;
                    } else if self.kws("on constraint") {
                        self.ident()?;
                    }
                    if self.kws("do update") {
                        return Err("ON CONFLICT DO UPDATE is not modelled".into());
                    }
                    self.xkw("do nothing")?;
                    nothing = true;
                }
                let returning = if self.kw("returning") { self.targets()? } else { vec![] };
                Ok(Stmt::Insert { table, cols, src, defaults, on_conflict_nothing: nothing, returning })
            }
            "delete" => {
                self.adv();
                self.xkw("from")?;
                let table = self.qname()?;
                let (alias, _) = self.alias()?;
                let wher = if self.kw("where") { Some(self.expr()?) } else { None };
                let returning = if self.kw("returning") { self.targets()? } else { vec![] };
                Ok(Stmt::Delete { table, alias, wher, returning })
            }
            "update" => {
                self.adv();
                let table = self.qname()?;
                let (alias, _) = self.alias()?;
                self.xkw("set")?;
                let mut sets = vec![];
                loop {
                    let c = self.ident()?;
                    self.xop("=")?;
                    sets.push((c, self.val_or_default()?));
                    if !self.op(",") {
                        break;
                    }
                }
                let wher = if self.kw("where") { Some(self.expr()?) } else { None };
                let returning = if self.kw("returning") { self.targets()? } else { vec![] };
                Ok(Stmt::Update { table, alias, sets, wher, returning })
            }
            _ => self.err(),
        }
    }
    fn con_attrs(&mut self, c: &mut Con) -> R<()> {
        loop {
            if self.kws("not deferrable") {
                c.deferrable = Some(false);
            } else if self.kws("not valid") {
                c.not_valid = true;
            } else if self.kw("deferrable") {
                c.deferrable = Some(true);
            } else if self.kws("initially deferred") {
                c.deferred = Some(true);
            } else if self.kws("initially immediate") {
                c.deferred = Some(false);
            } else {
                return Ok(());
            }
        }
    }
    fn fk_spec(&mut self) -> R<FkSpec> {
        let table = self.qname()?;
        let cols = if self.peek_op("(") { self.idents()? } else { vec![] };
        let mut f = FkSpec { table, cols, mtch: 's', upd: 'a', del: 'a' };
        loop {
            if self.kw("match") {
                f.mtch = if self.kw("full") {
                    'f'
                } else if self.kw("partial") {
                    return Err("\u{4}MATCH PARTIAL not yet implemented".into());
                } else {
                    self.xkw("simple")?;
                    's'
                };
            } else if self.kws("on update") {
                f.upd = self.fk_act()?;
            } else if self.kws("on delete") {
                f.del = self.fk_act()?;
            } else {
                return Ok(f);
            }
        }
    }
    fn fk_act(&mut self) -> R<char> {
        Ok(if self.kws("no action") {
            'a'
        } else if self.kw("restrict") {
            'r'
        } else if self.kw("cascade") {
            'c'
        } else if self.kws("set null") {
            'n'
        } else if self.kws("set default") {
            'd'
        } else {
            return self.err();
        })
    }
    fn table_con(&mut self) -> R<Option<Con>> {
        let save = self.i;
        let name = if self.kw("constraint") { Some(self.ident()?) } else { None };
        let kind = if self.kws("primary key") {
            ConKind::Primary(self.idents()?)
        } else if self.kw("unique") {
            ConKind::Unique(self.idents()?)
        } else if self.kw("check") {
            self.xop("(")?;
            let e = self.expr()?;
            self.xop(")")?;
            ConKind::Check(e)
        } else if self.kws("foreign key") {
            let c = self.idents()?;
            self.xkw("references")?;
            ConKind::Fk(c, self.fk_spec()?)
        } else {
            if name.is_some() {
                return self.err();
            }
            self.i = save;
            return Ok(None);
        };
        let mut c = Con { name, kind, deferrable: None, deferred: None, not_valid: false };
        self.con_attrs(&mut c)?;
        Ok(Some(c))
    }
    fn coldef(&mut self) -> R<ColDef> {
        let name = self.ident()?;
        let ty = self.typename()?;
        let mut cons = vec![];
        loop {
            let cname = if self.kw("constraint") { Some(self.ident()?) } else { None };
            let kind = if self.kws("not null") {
                ConKind::NotNull
            } else if self.kw("null") {
                ConKind::Null
            } else if self.kw("default") {
                ConKind::Default(self.other()?)
            } else if self.kws("primary key") {
                ConKind::Primary(vec![name.clone()])
            } else if self.kw("unique") {
                ConKind::Unique(vec![name.clone()])
            } else if self.kw("check") {
                self.xop("(")?;
                let e = self.expr()?;
                self.xop(")")?;
                ConKind::Check(e)
            } else if self.kw("references") {
                ConKind::Fk(vec![name.clone()], self.fk_spec()?)
            } else if self.kws("generated always as identity") {
                ConKind::Identity(true)
            } else if self.kws("generated by default as identity") {
                ConKind::Identity(false)
            } else {
                if cname.is_some() {
                    return self.err();
                }
                break;
            };
            let mut c = Con { name: cname, kind, deferrable: None, deferred: None, not_valid: false };
            self.con_attrs(&mut c)?;
            cons.push(c);
        }
        Ok(ColDef { name, ty, cons })
    }
    fn seqopts(&mut self) -> R<SeqOpts> {
        let mut o = SeqOpts { ty: None, inc: None, min: None, max: None, start: None, restart: None, cache: None, cycle: None, owned: None };
        loop {
            if self.kw("as") {
                o.ty = Some(self.typename()?);
            } else if self.kw("increment") {
                self.kw("by");
                o.inc = Some(self.int()?);
            } else if self.kw("minvalue") {
                o.min = Some(Some(self.int()?));
            } else if self.kw("maxvalue") {
                o.max = Some(Some(self.int()?));
            } else if self.kws("no minvalue") {
                o.min = Some(None);
            } else if self.kws("no maxvalue") {
                o.max = Some(None);
            } else if self.kw("start") {
                self.kw("with");
                o.start = Some(self.int()?);
            } else if self.kw("restart") {
                self.kw("with");
                o.restart = Some(if let Tok::Num(_) = self.tok() { Some(self.int()?) } else { None });
            } else if self.kw("cache") {
                o.cache = Some(self.int()?);
            } else if self.kws("no cycle") {
                o.cycle = Some(false);
            } else if self.kw("cycle") {
                o.cycle = Some(true);
            } else if self.kws("owned by") {
                o.owned = Some(if self.kw("none") { vec![] } else { self.qname()? });
            } else {
                return Ok(o);
            }
        }
    }
    fn func_args(&mut self, defaults: bool) -> R<Vec<FuncArg>> {
        let mut args = vec![];
        self.xop("(")?;
        if !self.peek_op(")") {
            loop {
                let mut mode = "in".to_string();
                for m in ["in", "out", "inout", "variadic"] {
                    if self.peek_kw(m) && matches!(self.at(1), Tok::Id(..)) {
                        mode = m.to_string();
                        self.adv();
                        break;
                    }
                }
                let save = self.i;
                let mut name = None;
                // name type | type
                if let Tok::Id(..) = self.tok() {
                    if matches!(self.at(1), Tok::Id(s, _) if s != "default" && s != "varying" && s != "precision" && s != "with" && s != "without") {
                        name = Some(self.label()?);
                    }
                }
                let ty = match self.typename() {
                    Ok(t) => t,
                    Err(_) => {
                        self.i = save;
                        name = None;
                        self.typename()?
                    }
                };
                let mut default = None;
                if defaults && (self.kw("default") || self.op("=")) {
                    default = Some(self.expr()?);
                }
                args.push(FuncArg { mode, name, ty, default });
                if !self.op(",") {
                    break;
                }
            }
        }
        self.xop(")")?;
        Ok(args)
    }
    fn create(&mut self) -> R<Stmt> {
        let replace = self.kws("or replace");
        if self.kw("schema") {
            let if_not_exists = self.kws("if not exists");
            let name = self.ident()?;
            return Ok(Stmt::CreateSchema { name, if_not_exists });
        }
        if self.kw("table") {
            let if_not_exists = self.kws("if not exists");
            let name = self.qname()?;
            self.xop("(")?;
            let (mut cols, mut cons) = (vec![], vec![]);
            if !self.peek_op(")") {
                loop {
                    match self.table_con()? {
                        Some(c) => cons.push(c),
                        None => cols.push(self.coldef()?),
                    }
                    if !self.op(",") {
                        break;
                    }
                }
            }
            self.xop(")")?;
            return Ok(Stmt::CreateTable { name, cols, cons, if_not_exists });
        }
        if self.kw("sequence") {
            let if_not_exists = self.kws("if not exists");
            let name = self.qname()?;
            let opts = self.seqopts()?;
            return Ok(Stmt::CreateSeq { name, opts, if_not_exists });
        }
        if self.peek_kw("index") || self.peek_kw("unique") {
            let unique = self.kw("unique");
            self.xkw("index")?;
            self.kw("concurrently");
            let if_not_exists = self.kws("if not exists");
            let name = if self.peek_kw("on") { None } else { Some(self.ident()?) };
            self.xkw("on")?;
            let table = self.qname()?;
            let method = if self.kw("using") { Some(self.ident()?) } else { None };
            self.xop("(")?;
            let mut elems = vec![];
            loop {
                let expr = if self.peek_op("(") {
                    self.primary()?
                } else {
                    // a column or a function call
                    self.name_expr()?
                };
                if self.kw("collate") {
                    self.qname()?;
                }
                let opclass = match self.tok() {
                    Tok::Id(s, false) if s != "asc" && s != "desc" && s != "nulls" => Some(self.label()?),
                    _ => None,
                };
                let desc = if self.kw("desc") {
                    true
                } else {
                    self.kw("asc");
                    false
                };
                let nulls_first = self.nulls()?;
                elems.push(IndexElem { expr, opclass, desc, nulls_first });
                if !self.op(",") {
                    break;
                }
            }
            self.xop(")")?;
            let pred = if self.kw("where") { Some(self.expr()?) } else { None };
            return Ok(Stmt::CreateIndex { name, table, method, unique, elems, pred, if_not_exists });
        }
        if self.kw("function") {
            let mut name = vec![self.label()?];
            while self.op(".") {
                name.push(self.label()?);
            }
            let args = self.func_args(true)?;
            let (mut ret, mut lang, mut vol, mut body, mut strict) = (None, None, None, None, false);
            loop {
                if self.kw("returns") {
                    if self.kws("null on null input") {
                        strict = true;
                    } else {
                        ret = Some(self.typename()?);
                    }
                } else if self.kw("language") {
                    lang = Some(match self.tok().clone() {
                        Tok::Str(s) => {
                            self.adv();
                            s.to_lowercase()
                        }
                        _ => self.label()?,
                    });
                } else if self.kw("immutable") {
                    vol = Some('i');
                } else if self.kw("stable") {
                    vol = Some('s');
                } else if self.kw("volatile") {
                    vol = Some('v');
                } else if self.kw("strict") {
                    strict = true;
                } else if self.kws("called on null input") || self.kws("security definer") || self.kws("security invoker") || self.kw("leakproof") || self.kws("not leakproof") {
                } else if self.kw("parallel") {
                    self.label()?;
                } else if self.kw("cost") || self.kw("rows") {
                    self.int()?;
                } else if self.kw("as") {
                    body = Some(self.string()?);
                } else {
                    break;
                }
            }
            return Ok(Stmt::CreateFunc { name, args, ret, lang, vol, body, replace, strict });
        }
        if self.kw("view") {
            let name = self.qname()?;
            let cols = if self.peek_op("(") { self.idents()? } else { vec![] };
            self.xkw("as")?;
            let st = self.t[self.i].pos;
            let q = self.select()?;
            let text = self.src[st..self.t[self.i].pos].trim().to_string();
            return Ok(Stmt::CreateView { name, cols, q, text, replace });
        }
        self.err()
    }
    fn drop(&mut self) -> R<Stmt> {
        if self.kw("schema") {
            let if_exists = self.if_exists();
            let mut names = vec![self.ident()?];
            while self.op(",") {
                names.push(self.ident()?);
            }
            let cascade = self.cascade();
            return Ok(Stmt::DropSchema { names, if_exists, cascade });
        }
        for (k, c) in [("table", 'r'), ("sequence", 'S'), ("index", 'i'), ("view", 'v')] {
            if self.kw(k) {
                if c == 'i' {
                    self.kw("concurrently");
                }
                let if_exists = self.if_exists();
                let mut names = vec![self.qname()?];
                while self.op(",") {
                    names.push(self.qname()?);
                }
                let cascade = self.cascade();
                return Ok(Stmt::DropRel { kind: c, names, if_exists, cascade });
            }
        }
        if self.kw("function") {
            let if_exists = self.if_exists();
            let mut name = vec![self.label()?];
            while self.op(".") {
                name.push(self.label()?);
            }
            let args = if self.peek_op("(") { Some(self.func_args(false)?) } else { None };
            let cascade = self.cascade();
            return Ok(Stmt::DropFunc { name, args, if_exists, cascade });
        }
        self.err()
    }
    fn alter(&mut self) -> R<Stmt> {
        if self.kw("schema") {
            let a = self.ident()?;
            self.xkw("rename to")?;
            return Ok(Stmt::AlterSchemaRename(a, self.ident()?));
        }
        if self.kw("index") {
            let a = self.qname()?;
            self.xkw("rename to")?;
            return Ok(Stmt::AlterIndexRename(a, self.ident()?));
        }
        if self.kw("sequence") {
            self.if_exists();
            let name = self.qname()?;
            let opts = self.seqopts()?;
            return Ok(Stmt::AlterSeq { name, opts });
        }
        self.xkw("table")?;
        let if_exists = self.if_exists();
        self.kw("only");
        let name = self.qname()?;
        let mut acts = vec![];
        loop {
            acts.push(self.alter_act()?);
            if !self.op(",") {
                break;
            }
        }
        Ok(Stmt::AlterTable { name, if_exists, acts })
    }
    fn alter_act(&mut self) -> R<Alter> {
        if self.kw("add") {
            if let Some(c) = self.table_con()? {
                return Ok(Alter::AddCon(c));
            }
            self.kw("column");
            let ine = self.kws("if not exists");
            return Ok(Alter::AddColumn(ine, self.coldef()?));
        }
        if self.kw("drop") {
            if self.kw("constraint") {
                let if_exists = self.if_exists();
                let name = self.ident()?;
                let cascade = self.cascade();
                return Ok(Alter::DropCon { name, if_exists, cascade });
            }
            self.kw("column");
            let if_exists = self.if_exists();
            let name = self.ident()?;
            let cascade = self.cascade();
            return Ok(Alter::DropColumn { name, if_exists, cascade });
        }
        if self.kw("alter") {
            if self.kw("constraint") {
                let name = self.ident()?;
                let mut c = Con { name: None, kind: ConKind::Null, deferrable: None, deferred: None, not_valid: false };
                self.con_attrs(&mut c)?;
                return Ok(Alter::AlterCon { name, deferrable: c.deferrable, deferred: c.deferred });
            }
            self.kw("column");
            let name = self.ident()?;
            if self.kws("set data type") || self.kw("type") {
                let ty = self.typename()?;
                let using = if self.kw("using") { Some(self.expr()?) } else { None };
                return Ok(Alter::Type { name, ty, using });
            }
            if self.kws("set default") {
                return Ok(Alter::SetDefault(name, Some(self.expr()?)));
            }
            if self.kws("drop default") {
                return Ok(Alter::SetDefault(name, None));
            }
            if self.kws("set not null") {
                return Ok(Alter::SetNotNull(name, true));
            }
            if self.kws("drop not null") {
                return Ok(Alter::SetNotNull(name, false));
            }
            return self.err();
        }
        if self.kw("validate") {
            self.xkw("constraint")?;
            return Ok(Alter::Validate(self.ident()?));
        }
        if self.kws("owner to") {
            self.label()?;
            return Ok(Alter::Owner);
        }
        if self.kws("set schema") {
            return Ok(Alter::SetSchema(self.ident()?));
        }
        if self.kw("rename") {
            if self.kw("to") {
                return Ok(Alter::RenameTo(self.ident()?));
            }
            if self.kw("constraint") {
                let a = self.ident()?;
                self.xkw("to")?;
                return Ok(Alter::RenameCon(a, self.ident()?));
            }
            self.kw("column");
            let a = self.ident()?;
            self.xkw("to")?;
            return Ok(Alter::RenameCol(a, self.ident()?));
        }
        self.err()
    }
}

fn fcall(n: &str, args: Vec<Expr>) -> Expr {
    Expr::Func { name: vec![n.to_string()], args, star: false, distinct: false, order: vec![], filter: None }
}
fn trunc(s: String) -> String {
    if s.len() <= 63 {
        return s;
    }
    let mut k = 63;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    s[..k].to_string()
}
