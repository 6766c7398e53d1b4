//! SQL types and values of the database model.
use std::cmp::Ordering;

pub type Oid = u32;

pub const BOOL: Oid = 16;
pub const BYTEA: Oid = 17;
pub const CHAR: Oid = 18;
pub const NAME: Oid = 19;
pub const INT8: Oid = 20;
pub const INT2: Oid = 21;
pub const INT2VECTOR: Oid = 22;
pub const INT4: Oid = 23;
pub const TEXT: Oid = 25;
pub const OID: Oid = 26;
pub const JSON: Oid = 114;
pub const NODETREE: Oid = 194;
pub const FLOAT4: Oid = 700;
pub const FLOAT8: Oid = 701;
pub const UNKNOWN: Oid = 705;
pub const BPCHAR: Oid = 1042;
pub const VARCHAR: Oid = 1043;
pub const DATE: Oid = 1082;
pub const TIME: Oid = 1083;
pub const TIMESTAMP: Oid = 1114;
pub const TIMESTAMPTZ: Oid = 1184;
pub const INTERVAL: Oid = 1186;
pub const TIMETZ: Oid = 1266;
pub const BIT: Oid = 1560;
pub const VARBIT: Oid = 1562;
pub const NUMERIC: Oid = 1700;
pub const REGCLASS: Oid = 2205;
pub const VOID: Oid = 2278;
pub const TRIGGER: Oid = 2279;
pub const RECORD: Oid = 2249;
pub const UUID: Oid = 2950;
pub const JSONB: Oid = 3802;

/// (oid, name, array oid, display name)
pub const TYPES: &[(Oid, &str, Oid, &str)] = &[
    (BOOL, "bool", 1000, "boolean"),
    (BYTEA, "bytea", 1001, "bytea"),
    (CHAR, "char", 1002, "\"char\""),
    (NAME, "name", 1003, "name"),
    (INT8, "int8", 1016, "bigint"),
    (INT2, "int2", 1005, "smallint"),
    (INT2VECTOR, "int2vector", 1006, "int2vector"),
    (INT4, "int4", 1007, "integer"),
    (TEXT, "text", 1009, "text"),
    (OID, "oid", 1028, "oid"),
    (JSON, "json", 199, "json"),
    (NODETREE, "pg_node_tree", 0, "pg_node_tree"),
    (FLOAT4, "float4", 1021, "real"),
    (FLOAT8, "float8", 1022, "double precision"),
    (UNKNOWN, "unknown", 0, "unknown"),
    (BPCHAR, "bpchar", 1014, "character"),
    (VARCHAR, "varchar", 1015, "character varying"),
    (DATE, "date", 1182, "date"),
    (TIME, "time", 1183, "time without time zone"),
    (TIMESTAMP, "timestamp", 1115, "timestamp without time zone"),
    (TIMESTAMPTZ, "timestamptz", 1185, "timestamp with time zone"),
    (INTERVAL, "interval", 1187, "interval"),
    (TIMETZ, "timetz", 1270, "time with time zone"),
    (BIT, "bit", 1561, "bit"),
    (VARBIT, "varbit", 1563, "bit varying"),
    (NUMERIC, "numeric", 1231, "numeric"),
    (REGCLASS, "regclass", 2210, "regclass"),
    (VOID, "void", 0, "void"),
    (TRIGGER, "trigger", 0, "trigger"),
    (RECORD, "record", 2287, "record"),
    (UUID, "uuid", 2951, "uuid"),
    (JSONB, "jsonb", 3807, "jsonb"),
];

/// pg_type.typlen
pub fn type_len(t: Oid) -> i64 {
    match t {
        BOOL | CHAR => 1,
        INT2 => 2,
        INT4 | OID | REGCLASS | FLOAT4 | DATE | VOID | TRIGGER => 4,
        INT8 | FLOAT8 | TIMESTAMP | TIMESTAMPTZ | TIME => 8,
        TIMETZ => 12,
        INTERVAL | UUID => 16,
        NAME => 64,
        UNKNOWN => -2,
        _ => -1,
    }
}
pub fn array_of(t: Oid) -> Oid {
    TYPES.iter().find(|x| x.0 == t).map(|x| x.2).unwrap_or(0)
}
pub fn elem_of(t: Oid) -> Oid {
    if t == INT2VECTOR {
        return INT2;
    }
    if t == 0 {
        return 0;
    }
    TYPES.iter().find(|x| x.2 == t).map(|x| x.0).unwrap_or(0)
}
pub fn is_array(t: Oid) -> bool {
    elem_of(t) != 0
}
pub fn type_by_name(n: &str) -> Option<Oid> {
    if let Some(e) = n.strip_prefix('_') {
        if let Some(x) = TYPES.iter().find(|x| x.1 == e && x.2 != 0) {
            return Some(x.2);
        }
    }
    TYPES.iter().find(|x| x.1 == n).map(|x| x.0)
}
pub fn typname(t: Oid) -> String {
    if t != INT2VECTOR {
        let e = elem_of(t);
        if e != 0 {
            return format!("_{}", typname(e));
        }
    }
    TYPES.iter().find(|x| x.0 == t).map(|x| x.1.to_string()).unwrap_or_else(|| format!("type{}", t))
}
pub fn is_int(t: Oid) -> bool {
    matches!(t, INT2 | INT4 | INT8)
}
pub fn is_num(t: Oid) -> bool {
    matches!(t, INT2 | INT4 | INT8 | NUMERIC | FLOAT4 | FLOAT8)
}
pub fn is_str(t: Oid) -> bool {
    matches!(t, TEXT | VARCHAR | BPCHAR | NAME | CHAR | NODETREE)
}
pub fn is_oidlike(t: Oid) -> bool {
    matches!(t, OID | REGCLASS)
}
pub fn num_rank(t: Oid) -> u32 {
    match t {
        INT2 => 1,
        INT4 => 2,
        INT8 => 3,
        NUMERIC => 4,
        FLOAT4 => 5,
        _ => 6,
    }
}
pub fn category(t: Oid) -> char {
    match t {
        BOOL => 'B',
        UNKNOWN => 'X',
        DATE | TIMESTAMP | TIMESTAMPTZ | TIME | TIMETZ => 'D',
        BIT | VARBIT => 'V',
        INTERVAL => 'T',
        _ if is_num(t) || is_oidlike(t) => 'N',
        _ if is_str(t) => 'S',
        _ if is_array(t) => 'A',
        _ => 'U',
    }
}

pub fn typmod_suffix(t: Oid, m: i32) -> String {
    if m < 0 {
        return String::new();
    }
    match t {
        VARCHAR | BPCHAR => format!("({})", m - 4),
        NUMERIC => format!("({},{})", ((m - 4) >> 16) & 0xffff, (m - 4) & 0x7ff),
        TIME | TIMETZ | TIMESTAMP | TIMESTAMPTZ | BIT | VARBIT => format!("({})", m),
        INTERVAL => {
            let f = FIELDS.iter().find(|f| f.1 == m >> 16).map_or(String::new(), |f| format!(" {}", f.0));
            if m & 0xffff == 0xffff {
                f
            } else {
                format!("{}({})", f, m & 0xffff)
            }
        }
        _ => String::new(),
    }
}
/// the fields an interval may be restricted to, and how its modifier says so
pub const FIELDS: &[(&str, i32)] = &[
    ("year to month", 4 | 2),
    ("day to hour", 8 | 1024),
    ("day to minute", 8 | 1024 | 2048),
    ("day to second", 8 | 1024 | 2048 | 4096),
    ("hour to minute", 1024 | 2048),
    ("hour to second", 1024 | 2048 | 4096),
    ("minute to second", 2048 | 4096),
    ("year", 4),
    ("month", 2),
    ("day", 8),
    ("hour", 1024),
    ("minute", 2048),
    ("second", 4096),
];

pub fn format_type(t: Oid, m: i32) -> String {
    let e = elem_of(t);
    if e != 0 && t != INT2VECTOR {
        return format!("{}[]", format_type(e, m));
    }
    let base = TYPES.iter().find(|x| x.0 == t).map(|x| x.3.to_string()).unwrap_or_else(|| format!("type{}", t));
    if m < 0 {
        return if t == BPCHAR { "bpchar".into() } else { base };
    }
    match t {
        TIMESTAMP => format!("timestamp({}) without time zone", m),
        TIMESTAMPTZ => format!("timestamp({}) with time zone", m),
        TIME => format!("time({}) without time zone", m),
        TIMETZ => format!("time({}) with time zone", m),
        _ => format!("{}{}", base, typmod_suffix(t, m)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ty {
    pub oid: Oid,
    pub m: i32,
}
pub fn ty(oid: Oid) -> Ty {
    Ty { oid, m: -1 }
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub mant: i128,
    pub scale: u32,
}

impl Dec {
    pub fn parse(s: &str) -> Option<Dec> {
        let s = s.trim();
        let (neg, s) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        let (m, exp) = match s.find(|c| c == 'e' || c == 'E') {
            Some(i) => (&s[..i], s[i + 1..].parse::<i32>().ok()?),
            None => (s, 0),
        };
        let (ip, fp) = match m.find('.') {
            Some(i) => (&m[..i], &m[i + 1..]),
            None => (m, ""),
        };
        if ip.is_empty() && fp.is_empty() {
            return None;
        }
        if !ip.bytes().all(|c| c.is_ascii_digit()) || !fp.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let mut mant: i128 = format!("0{}{}", ip, fp).parse().ok()?;
        let mut scale = fp.len() as i32 - exp;
        while scale < 0 {
            mant = mant.checked_mul(10)?;
            scale += 1;
        }
        if neg {
            mant = -mant;
        }
        Some(Dec { mant, scale: scale as u32 })
    }
    pub fn rescale(self, scale: u32) -> Dec {
        let mut d = self;
        while d.scale < scale {
            d.mant = d.mant.saturating_mul(10);
            d.scale += 1;
        }
        while d.scale > scale {
            let r = d.mant % 10;
            d.mant /= 10;
            if d.scale - 1 == scale && r.abs() >= 5 {
                d.mant += r.signum();
            }
            d.scale -= 1;
        }
        d
    }
    pub fn cmp(self, o: Dec) -> Ordering {
        let s = self.scale.max(o.scale);
        self.rescale(s).mant.cmp(&o.rescale(s).mant)
    }
    pub fn f64(self) -> f64 {
        self.mant as f64 / 10f64.powi(self.scale as i32)
    }
}
impl std::fmt::Display for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let a = self.mant.unsigned_abs().to_string();
        let sign = if self.mant < 0 { "-" } else { "" };
        let sc = self.scale as usize;
        if sc == 0 {
            return write!(f, "{}{}", sign, a);
        }
        let a = format!("{:0>w$}", a, w = sc + 1);
        write!(f, "{}{}.{}", sign, &a[..a.len() - sc], &a[a.len() - sc..])
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Num(Dec),
    Text(String),
    /// timestamps in microseconds and dates in days since 2000-01-01, times in microseconds
    Time(i64),
    Bytes(Vec<u8>),
    Arr(Vec<Val>),
}

impl Val {
    pub fn t(s: &str) -> Val {
        Val::Text(s.to_string())
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Val::Null)
    }
    pub fn text(&self) -> &str {
        match self {
            Val::Text(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Val::Int(i) => *i,
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, Val::Bool(true))
    }
    pub fn oid(&self) -> Oid {
        self.int() as Oid
    }
}

pub fn compare(a: &Val, b: &Val) -> Ordering {
    use Val::*;
    match (a, b) {
        (Null, Null) => Ordering::Equal,
        (Null, _) => Ordering::Greater,
        (_, Null) => Ordering::Less,
        (Bool(x), Bool(y)) => x.cmp(y),
        (Int(x), Int(y)) => x.cmp(y),
        (Time(x), Time(y)) => x.cmp(y),
        (Text(x), Text(y)) => x.cmp(y),
        (Bytes(x), Bytes(y)) => x.cmp(y),
        (Num(x), Num(y)) => x.cmp(*y),
        (Num(x), Int(y)) => x.cmp(Dec { mant: *y as i128, scale: 0 }),
        (Int(x), Num(y)) => Dec { mant: *x as i128, scale: 0 }.cmp(*y),
        (Arr(x), Arr(y)) => {
            for (p, q) in x.iter().zip(y) {
                let c = compare(p, q);
                if c != Ordering::Equal {
                    return c;
                }
            }
            x.len().cmp(&y.len())
        }
        _ => f(a).partial_cmp(&f(b)).unwrap_or(Ordering::Equal),
    }
}
fn f(v: &Val) -> f64 {
    match v {
        Val::Float(x) => *x,
        Val::Int(i) => *i as f64,
        Val::Num(d) => d.f64(),
        _ => 0.0,
    }
}
pub fn as_f64(v: &Val) -> f64 {
    f(v)
}

// ---- dates
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}
const Y2K: i64 = 10957;
const DAY: i64 = 86_400_000_000;

fn date_str(days: i64) -> String {
    let (y, m, d) = civil_from_days(days + Y2K);
    format!("{:04}-{:02}-{:02}", y, m, d)
}
fn time_str(us: i64) -> String {
    let s = us / 1_000_000;
    let f = us % 1_000_000;
    let mut r = format!("{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60);
    if f != 0 {
        r.push_str(format!(".{:06}", f).trim_end_matches('0'));
    }
    r
}
fn parse_date(s: &str) -> Option<i64> {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 {
        return None;
    }
    let (y, m, d) = (p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?);
    if !(1..=12).contains(&m) || !(1..=31).contains(&d) {
        return None;
    }
    let n = days_from_civil(y, m, d);
    if civil_from_days(n) != (y, m, d) {
        return None;
    }
    Some(n - Y2K)
}
fn parse_time(s: &str) -> Option<i64> {
    let p: Vec<&str> = s.split(':').collect();
    if p.len() < 2 || p.len() > 3 {
        return None;
    }
    let h: i64 = p[0].parse().ok()?;
    let m: i64 = p[1].parse().ok()?;
    let sec: f64 = if p.len() == 3 { p[2].parse().ok()? } else { 0.0 };
    if h > 24 || m > 59 || sec >= 61.0 {
        return None;
    }
    Some((h * 3600 + m * 60) * 1_000_000 + (sec * 1e6).round() as i64)
}

/// text input of a type
pub fn input(s: &str, t: Oid) -> Result<Val, (&'static str, String)> {
    let bad = || ("22P02", format!("invalid input syntax for type {}: \"{}\"", format_type(t, -1), s));
    let range = || ("22003", format!("value \"{}\" is out of range for type {}", s, format_type(t, -1)));
    Ok(match t {
        BOOL => match s.trim().to_ascii_lowercase().as_str() {
            "t" | "true" | "on" | "yes" | "y" | "1" => Val::Bool(true),
            "f" | "false" | "off" | "no" | "n" | "0" => Val::Bool(false),
            _ => return Err(bad()),
        },
        INT2 | INT4 | INT8 | OID => {
            let i: i128 = s.trim().parse().map_err(|_| bad())?;
            if i < int_min(t) as i128 || i > int_max(t) as i128 {
                return Err(range());
            }
            Val::Int(i as i64)
        }
        FLOAT4 | FLOAT8 => Val::Float(s.trim().parse().map_err(|_| bad())?),
        NUMERIC => Val::Num(Dec::parse(s).ok_or_else(bad)?),
        DATE => Val::Time(parse_date(s.trim().split(' ').next().unwrap()).ok_or_else(|| ("22007", format!("invalid input syntax for type date: \"{}\"", s)))?),
        TIME => Val::Time(parse_time(s.trim()).ok_or_else(|| ("22007", format!("invalid input syntax for type time: \"{}\"", s)))?),
        TIMESTAMP | TIMESTAMPTZ => {
            let e = || ("22007", format!("invalid input syntax for type {}: \"{}\"", typname(t), s));
            let x = s.trim();
            let x = x.strip_suffix("+00").or(x.strip_suffix('Z')).unwrap_or(x);
            let mut it = x.splitn(2, |c| c == ' ' || c == 'T');
            let d = parse_date(it.next().unwrap()).ok_or_else(e)?;
            let tm = match it.next() {
                Some(p) => parse_time(p).ok_or_else(e)?,
                None => 0,
            };
            Val::Time(d * DAY + tm)
        }
        JSON | JSONB => {
            let v: serde_json::Value = serde_json::from_str(s).map_err(|_| ("22P02", "invalid input syntax for type json".to_string()))?;
            if t == JSONB {
                Val::Text(v.to_string())
            } else {
                Val::Text(s.to_string())
            }
        }
        UUID => {
            let h: String = s.chars().filter(|c| *c != '-').collect::<String>().to_ascii_lowercase();
            if h.len() != 32 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(bad());
            }
            Val::Text(format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..]))
        }
        CHAR => Val::Text(s.chars().take(1).collect()),
        NAME => Val::Text(s.chars().take(63).collect()),
        BYTEA => Val::Bytes(s.as_bytes().to_vec()),
        _ if is_array(t) => {
            let b = s.trim();
            if !b.starts_with('{') || !b.ends_with('}') {
                return Err(("22P02", format!("malformed array literal: \"{}\"", s)));
            }
            let mut out = vec![];
            let inner = &b[1..b.len() - 1];
            if !inner.trim().is_empty() {
                let mut cur = String::new();
                let (mut q, mut was_q, mut esc) = (false, false, false);
                let mut items = vec![];
                for c in inner.chars() {
                    if esc {
                        cur.push(c);
                        esc = false;
                    } else if c == '\\' {
                        esc = true;
                    } else if c == '"' {
                        q = !q;
                        was_q = true;
                    } else if c == ',' && !q {
                        items.push((std::mem::take(&mut cur), was_q));
                        was_q = false;
                    } else {
                        cur.push(c);
                    }
                }
                items.push((cur, was_q));
                for (i, wq) in items {
                    if !wq && i.trim().eq_ignore_ascii_case("null") {
                        out.push(Val::Null);
                    } else {
                        out.push(input(if wq { &i } else { i.trim() }, elem_of(t))?);
                    }
                }
            }
            Val::Arr(out)
        }
        VOID => Val::t(""),
        _ => Val::Text(s.to_string()),
    })
}
pub fn int_min(t: Oid) -> i64 {
    match t {
        INT2 => i16::MIN as i64,
        INT4 => i32::MIN as i64,
        OID => 0,
        _ => i64::MIN,
    }
}
pub fn int_max(t: Oid) -> i64 {
    match t {
        INT2 => i16::MAX as i64,
        INT4 => i32::MAX as i64,
        OID => u32::MAX as i64,
        _ => i64::MAX,
    }
}

/// text output of a value of a type
pub fn output(v: &Val, t: Oid) -> String {
    match v {
        Val::Null => String::new(),
        Val::Bool(b) => (if *b { "t" } else { "f" }).into(),
        Val::Int(i) => i.to_string(),
        Val::Float(x) => format!("{}", x),
        Val::Num(d) => d.to_string(),
        Val::Text(s) => s.clone(),
        Val::Time(x) => match t {
            DATE => date_str(*x),
            TIME => time_str(*x),
            TIMESTAMPTZ => format!("{} {}+00", date_str(x.div_euclid(DAY)), time_str(x.rem_euclid(DAY))),
            _ => format!("{} {}", date_str(x.div_euclid(DAY)), time_str(x.rem_euclid(DAY))),
        },
        Val::Bytes(b) => format!("\\x{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()),
        Val::Arr(a) => {
            let e = elem_of(t);
            if t == INT2VECTOR {
                return a.iter().map(|x| output(x, e)).collect::<Vec<_>>().join(" ");
            }
            let items: Vec<String> = a
                .iter()
                .map(|x| {
                    if x.is_null() {
                        return "NULL".to_string();
                    }
                    let s = output(x, e);
                    if s.is_empty() || s.eq_ignore_ascii_case("null") || s.chars().any(|c| "{}\",\\ ".contains(c) || c.is_whitespace()) {
                        format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
                    } else {
                        s
                    }
                })
                .collect();
            format!("{{{}}}", items.join(","))
        }
    }
}

/// applies a length modifier
pub fn apply_typmod(v: Val, t: Ty, explicit: bool) -> Result<Val, (&'static str, String)> {
    if t.m < 0 {
        return Ok(v);
    }
    Ok(match (v, t.oid) {
        (Val::Text(s), VARCHAR) | (Val::Text(s), BPCHAR) => {
            let n = (t.m - 4) as usize;
            let l = s.chars().count();
            if l > n {
                let cut: String = s.chars().take(n).collect();
                if explicit || s.chars().skip(n).all(|c| c == ' ') {
                    Val::Text(cut)
                } else {
                    return Err(("22001", format!("value too long for type {}", format_type(t.oid, t.m))));
                }
            } else if t.oid == BPCHAR {
                Val::Text(format!("{:w$}", s, w = n))
            } else {
                Val::Text(s)
            }
        }
        (Val::Num(d), NUMERIC) => {
            let sc = ((t.m - 4) & 0x7ff) as u32;
            let pr = (((t.m - 4) >> 16) & 0xffff) as u32;
            let d = d.rescale(sc);
            if d.mant.unsigned_abs() >= 10u128.pow(pr.min(38)) {
                return Err(("22003", "numeric field overflow".into()));
            }
            Val::Num(d)
        }
        (v, _) => v,
    })
}

/// binary wire form
pub fn to_binary(v: &Val, t: Oid) -> Vec<u8> {
    match v {
        Val::Null => vec![],
        Val::Bool(b) => vec![*b as u8],
        Val::Int(i) => match t {
            INT2 => (*i as i16).to_be_bytes().to_vec(),
            INT8 => i.to_be_bytes().to_vec(),
            OID | REGCLASS => (*i as u32).to_be_bytes().to_vec(),
            _ => (*i as i32).to_be_bytes().to_vec(),
        },
        Val::Float(f) => {
            if t == FLOAT4 {
                (*f as f32).to_be_bytes().to_vec()
            } else {
                f.to_be_bytes().to_vec()
            }
        }
        Val::Num(d) => {
            // groups of four decimal digits around the point
            let s = d.to_string();
            let s = s.trim_start_matches('-');
            let (ip, fp) = s.split_once('.').unwrap_or((s, ""));
            let ip = format!("{}{}", "0".repeat((4 - ip.len() % 4) % 4), ip);
            let fpd = format!("{}{}", fp, "0".repeat((4 - fp.len() % 4) % 4));
            let all: Vec<i16> = (ip.clone() + &fpd).as_bytes().chunks(4).map(|c| std::str::from_utf8(c).unwrap().parse().unwrap()).collect();
            let mut o = vec![];
            o.extend((all.len() as i16).to_be_bytes());
            o.extend((ip.len() as i16 / 4 - 1).to_be_bytes());
            o.extend((if d.mant < 0 { 0x4000u16 } else { 0 }).to_be_bytes());
            o.extend((fp.len() as i16).to_be_bytes());
            for g in all {
                o.extend(g.to_be_bytes());
            }
            o
        }
        Val::Text(s) => match t {
            UUID => {
                let h: String = s.chars().filter(|c| *c != '-').collect();
                (0..16).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
            }
            JSONB => {
                let mut o = vec![1u8];
                o.extend(s.as_bytes());
                o
            }
            VOID => vec![],
            _ => s.as_bytes().to_vec(),
        },
        Val::Time(x) => {
            if t == DATE {
                (*x as i32).to_be_bytes().to_vec()
            } else {
                x.to_be_bytes().to_vec()
            }
        }
        Val::Bytes(b) => b.clone(),
        Val::Arr(a) => {
            let e = elem_of(t);
            let mut o = vec![];
            o.extend((if a.is_empty() { 0i32 } else { 1 }).to_be_bytes());
            o.extend((a.iter().any(|x| x.is_null()) as i32).to_be_bytes());
            o.extend(e.to_be_bytes());
            if !a.is_empty() {
                o.extend((a.len() as i32).to_be_bytes());
                o.extend((if t == INT2VECTOR { 0i32 } else { 1 }).to_be_bytes());
            }
            for x in a {
                if x.is_null() {
                    o.extend((-1i32).to_be_bytes());
                } else {
                    let b = to_binary(x, e);
                    o.extend((b.len() as i32).to_be_bytes());
                    o.extend(b);
                }
            }
            o
        }
    }
}
pub fn from_binary(b: &[u8], t: Oid) -> Option<Val> {
    Some(match t {
        BOOL => Val::Bool(*b.first()? != 0),
        INT2 => Val::Int(i16::from_be_bytes(b.try_into().ok()?) as i64),
        INT4 => Val::Int(i32::from_be_bytes(b.try_into().ok()?) as i64),
        INT8 => Val::Int(i64::from_be_bytes(b.try_into().ok()?)),
        OID | REGCLASS => Val::Int(u32::from_be_bytes(b.try_into().ok()?) as i64),
        FLOAT4 => Val::Float(f32::from_be_bytes(b.try_into().ok()?) as f64),
        FLOAT8 => Val::Float(f64::from_be_bytes(b.try_into().ok()?)),
        TIMESTAMP | TIMESTAMPTZ | TIME => Val::Time(i64::from_be_bytes(b.try_into().ok()?)),
        DATE => Val::Time(i32::from_be_bytes(b.try_into().ok()?) as i64),
        BYTEA => Val::Bytes(b.to_vec()),
        JSONB => Val::Text(String::from_utf8(b.get(1..)?.to_vec()).ok()?),
        _ if is_array(t) => {
            let i32at = |o: usize| -> Option<i32> { Some(i32::from_be_bytes(b.get(o..o + 4)?.try_into().ok()?)) };
            let nd = i32at(0)?;
            let e = i32at(8)? as u32;
            let mut out = vec![];
            if nd == 1 {
                let n = i32at(12)?;
                let mut o = 20;
                for _ in 0..n {
                    let l = i32at(o)?;
                    o += 4;
                    if l < 0 {
                        out.push(Val::Null);
                    } else {
                        out.push(from_binary(b.get(o..o + l as usize)?, e)?);
                        o += l as usize;
                    }
                }
            } else if nd != 0 {
                return None;
            }
            Val::Arr(out)
        }
        _ => Val::Text(String::from_utf8(b.to_vec()).ok()?),
    })
}
