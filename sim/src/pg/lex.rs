//! SQL lexer.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    /// unquoted (folded) or quoted identifier
    Id(String, bool),
    Num(String),
    Str(String),
    Param(usize),
    Op(String),
    Eof,
}
#[derive(Clone, Debug)]
pub struct Token {
    pub t: Tok,
    pub pos: usize,
    pub end: usize,
}

pub fn lex(s: &str) -> Result<Vec<Token>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        let st = i;
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b'-' && b.get(i + 1) == Some(&b'-') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'*') {
            let mut d = 1;
            i += 2;
            while d > 0 {
                if i + 1 >= b.len() {
                    return Err("unterminated /* comment".into());
                }
                if b[i] == b'*' && b[i + 1] == b'/' {
                    d -= 1;
                    i += 2;
                } else if b[i] == b'/' && b[i + 1] == b'*' {
                    d += 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
            continue;
        }
        let t = if (c == b'e' || c == b'E') && b.get(i + 1) == Some(&b'\'') {
            i += 2;
            let mut r = vec![];
            loop {
                match b.get(i) {
                    None => return Err("unterminated quoted string".into()),
                    Some(b'\'') if b.get(i + 1) == Some(&b'\'') => {
                        r.push(b'\'');
                        i += 2;
                    }
                    Some(b'\'') => {
                        i += 1;
                        break;
                    }
                    Some(b'\\') => {
                        let n = *b.get(i + 1).ok_or("unterminated quoted string")?;
                        r.push(match n {
                            b'n' => b'\n',
                            b't' => b'\t',
                            b'r' => b'\r',
                            x => x,
                        });
                        i += 2;
                    }
                    Some(x) => {
                        r.push(*x);
                        i += 1;
                    }
                }
            }
            Tok::Str(String::from_utf8(r).map_err(|_| "bad utf8")?)
        } else if c.is_ascii_alphabetic() || c == b'_' || c >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$' || b[i] >= 0x80) {
                i += 1;
            }
            Tok::Id(s[st..i].to_ascii_lowercase(), false)
        } else if c == b'"' {
            let mut r = vec![];
            i += 1;
            loop {
                match b.get(i) {
                    None => return Err("unterminated quoted identifier".into()),
                    Some(b'"') if b.get(i + 1) == Some(&b'"') => {
                        r.push(b'"');
                        i += 2;
                    }
                    Some(b'"') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        r.push(*x);
                        i += 1;
                    }
                }
            }
            if r.is_empty() {
                return Err("zero-length delimited identifier at or near \"\"\"\"".into());
            }
            Tok::Id(String::from_utf8(r).map_err(|_| "bad utf8")?, true)
        } else if c == b'\'' {
            let mut r = vec![];
            i += 1;
            loop {
                match b.get(i) {
                    None => return Err("unterminated quoted string".into()),
                    Some(b'\'') if b.get(i + 1) == Some(&b'\'') => {
                        r.push(b'\'');
                        i += 2;
                    }
                    Some(b'\'') => {
                        i += 1;
                        break;
                    }
                    Some(x) => {
                        r.push(*x);
                        i += 1;
                    }
                }
            }
            Tok::Str(String::from_utf8(r).map_err(|_| "bad utf8")?)
        } else if c == b'$' && b.get(i + 1).map_or(false, |x| x.is_ascii_digit()) {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            Tok::Param(s[st + 1..i].parse().map_err(|_| "bad parameter")?)
        } else if c == b'$' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] >= 0x80) {
                j += 1;
            }
            if b.get(j) != Some(&b'$') {
                return Err("syntax error at or near \"$\"".into());
            }
            let tag = &s[i..j + 1];
            match s[j + 1..].find(tag) {
                None => return Err("unterminated dollar-quoted string".into()),
                Some(k) => {
                    i = j + 1 + k + tag.len();
                    Tok::Str(s[j + 1..j + 1 + k].to_string())
                }
            }
        } else if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).map_or(false, |x| x.is_ascii_digit())) {
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i < b.len() && b[i] == b'.' && b.get(i + 1) != Some(&b'.') {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            if i < b.len() && (b[i].is_ascii_alphabetic() || b[i] == b'_') {
                return Err(format!("trailing junk after numeric literal at or near \"{}\"", &s[st..=i]));
            }
            Tok::Num(s[st..i].to_string())
        } else if b"()[],;.".contains(&c) {
            i += 1;
            Tok::Op((c as char).to_string())
        } else if c == b':' {
            i += 1;
            if b.get(i) == Some(&b':') || b.get(i) == Some(&b'=') {
                i += 1;
            }
            Tok::Op(s[st..i].to_string())
        } else if b"+-*/<>=~!@#%^&|`?".contains(&c) {
            while i < b.len() && b"+-*/<>=~!@#%^&|`?".contains(&b[i]) {
                if i > st && ((b[i] == b'-' && b.get(i + 1) == Some(&b'-')) || (b[i] == b'/' && b.get(i + 1) == Some(&b'*'))) {
                    break;
                }
                i += 1;
            }
            // a multi-character operator cannot end in + or - unless it holds one of ~!@#%^&|`?
            while i - st > 1 && (b[i - 1] == b'+' || b[i - 1] == b'-') && !b[st..i].iter().any(|x| b"~!@#%^&|`?".contains(x)) {
                i -= 1;
            }
            let o = &s[st..i];
            Tok::Op(if o == "!=" { "<>".into() } else { o.to_string() })
        } else {
            return Err(format!("syntax error at or near \"{}\"", c as char));
        };
        out.push(Token { t, pos: st, end: i });
    }
    out.push(Token { t: Tok::Eof, pos: b.len(), end: b.len() });
    Ok(out)
}

pub const RESERVED: &[&str] = &[
    "all", "analyse", "analyze", "and", "any", "array", "as", "asc", "asymmetric", "both", "case", "cast", "check", "collate", "column", "constraint", "create", "current_catalog", "current_date",
    "current_role", "current_time", "current_timestamp", "current_user", "default", "deferrable", "desc", "distinct", "do", "else", "end", "except", "false", "fetch", "for", "foreign", "from", "grant",
    "group", "having", "in", "initially", "intersect", "into", "lateral", "leading", "limit", "localtime", "localtimestamp", "not", "null", "offset", "on", "only", "or", "order", "placing", "primary",
    "references", "returning", "select", "session_user", "some", "symmetric", "table", "then", "to", "trailing", "true", "union", "unique", "user", "using", "variadic", "when", "where", "window", "with",
];
/// may name a function or a type, but not a column or a table
pub const RESERVED_FT: &[&str] = &[
    "authorization", "binary", "collation", "concurrently", "cross", "current_schema", "freeze", "full", "ilike", "inner", "is", "isnull", "join", "left", "like", "natural", "notnull", "outer",
    "overlaps", "right", "similar", "tablesample", "verbose",
];
pub fn quote_ident(s: &str) -> String {
    let plain = !s.is_empty()
        && s.bytes().enumerate().all(|(i, c)| c.is_ascii_lowercase() || c == b'_' || (i > 0 && c.is_ascii_digit()))
        && !RESERVED.contains(&s)
        && !RESERVED_FT.contains(&s);
    if plain {
        s.to_string()
    } else {
        format!("\"{}\"", s.replace('"', "\"\""))
    }
}
pub fn quote_lit(s: &str) -> String {
    let q = s.replace('\'', "''");
    if s.contains('\\') {
        format!("E'{}'", q.replace('\\', "\\\\"))
    } else {
        format!("'{}'", q)
    }
}
