//! Syntax trees.
#[derive(Clone, Debug, PartialEq)]
pub struct TypeName {
    pub name: Vec<String>,
    pub mods: Vec<i64>,
    pub array: bool,
    pub setof: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Num(String),
    Str(String),
    Bool(bool),
    Null,
    Param(usize),
    Col(Vec<String>),
    Star(Vec<String>),
    Func { name: Vec<String>, args: Vec<Expr>, star: bool, distinct: bool, order: Vec<OrderBy>, filter: Option<Box<Expr>> },
    /// CURRENT_TIMESTAMP and friends
    Special(String),
    Bin(String, Box<Expr>, Box<Expr>),
    Un(String, Box<Expr>),
    And(Box<Expr>, Box<Expr>),
    Or(Box<Expr>, Box<Expr>),
    Not(Box<Expr>),
    IsNull(Box<Expr>, bool),
    IsBool(Box<Expr>, bool, bool),
    IsDistinct(Box<Expr>, Box<Expr>, bool),
    In(Box<Expr>, Vec<Expr>, bool),
    InSub(Box<Expr>, Box<Select>, bool),
    Between(Box<Expr>, Box<Expr>, Box<Expr>, bool),
    Cast(Box<Expr>, TypeName),
    Case(Option<Box<Expr>>, Vec<(Expr, Expr)>, Option<Box<Expr>>),
    Any(String, Box<Expr>, Box<Expr>, bool),
    Array(Vec<Expr>),
    ArraySub(Box<Select>),
    Sub(Box<Select>),
    Exists(Box<Select>),
    Index(Box<Expr>, Box<Expr>),
    Row(Vec<Expr>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct OrderBy {
    pub expr: Expr,
    pub desc: bool,
    pub nulls_first: Option<bool>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Target {
    Expr(Expr, Option<String>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JoinKind {
    Inner,
    Left,
    Right,
    Full,
    Cross,
}

#[derive(Clone, Debug, PartialEq)]
pub enum From {
    Rel { name: Vec<String>, alias: Option<String>, cols: Vec<String> },
    Func { call: Expr, alias: Option<String>, cols: Vec<String>, ord: bool },
    Sub { q: Box<Select>, alias: Option<String>, cols: Vec<String> },
    Join { kind: JoinKind, l: Box<From>, r: Box<From>, on: Option<Expr>, using: Vec<String> },
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Select {
    pub with: Vec<(String, Vec<String>, Select)>,
    pub distinct: bool,
    pub targets: Vec<(Expr, Option<String>)>,
    pub from: Vec<From>,
    pub wher: Option<Expr>,
    pub group: Vec<Expr>,
    pub having: Option<Expr>,
    pub order: Vec<OrderBy>,
    pub limit: Option<Expr>,
    pub offset: Option<Expr>,
    pub values: Vec<Vec<Expr>>,
    pub union: Option<(String, bool, Box<Select>, Box<Select>)>,
    pub for_update: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FkSpec {
    pub table: Vec<String>,
    pub cols: Vec<String>,
    pub mtch: char,
    pub upd: char,
    pub del: char,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ConKind {
    NotNull,
    Null,
    Default(Expr),
    Primary(Vec<String>),
    Unique(Vec<String>),
    Check(Expr),
    Fk(Vec<String>, FkSpec),
    Identity(bool),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Con {
    pub name: Option<String>,
    pub kind: ConKind,
    pub deferrable: Option<bool>,
    pub deferred: Option<bool>,
    pub not_valid: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ColDef {
    pub name: String,
    pub ty: TypeName,
    pub cons: Vec<Con>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Alter {
    AddColumn(bool, ColDef),
    DropColumn { name: String, if_exists: bool, cascade: bool },
    Type { name: String, ty: TypeName, using: Option<Expr> },
    SetDefault(String, Option<Expr>),
    SetNotNull(String, bool),
    AddCon(Con),
    DropCon { name: String, if_exists: bool, cascade: bool },
    AlterCon { name: String, deferrable: Option<bool>, deferred: Option<bool> },
    RenameCol(String, String),
    RenameTo(String),
    RenameCon(String, String),
    SetSchema(String),
    Validate(String),
    Owner,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SeqOpts {
    pub ty: Option<TypeName>,
    pub inc: Option<i64>,
    pub min: Option<Option<i64>>,
    pub max: Option<Option<i64>>,
    pub start: Option<i64>,
    pub restart: Option<Option<i64>>,
    pub cache: Option<i64>,
    pub cycle: Option<bool>,
    pub owned: Option<Vec<String>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct IndexElem {
    pub expr: Expr,
    pub opclass: Option<String>,
    pub desc: bool,
    pub nulls_first: Option<bool>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FuncArg {
    pub mode: String,
    pub name: Option<String>,
    pub ty: TypeName,
    pub default: Option<Expr>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Empty,
    Begin { iso: Option<String>, read_only: Option<bool> },
    Commit,
    Rollback,
    Savepoint(String),
    Release(String),
    RollbackTo(String),
    Set(String, String),
    SetTransaction { iso: Option<String>, read_only: Option<bool> },
    Show(String),
    Lock { tables: Vec<Vec<String>>, mode: u8, nowait: bool },
    CreateSchema { name: String, if_not_exists: bool },
    DropSchema { names: Vec<String>, if_exists: bool, cascade: bool },
    CreateTable { name: Vec<String>, cols: Vec<ColDef>, cons: Vec<Con>, if_not_exists: bool },
    DropRel { kind: char, names: Vec<Vec<String>>, if_exists: bool, cascade: bool },
    AlterTable { name: Vec<String>, if_exists: bool, acts: Vec<Alter> },
    AlterSeq { name: Vec<String>, opts: SeqOpts },
    AlterSchemaRename(String, String),
    AlterIndexRename(Vec<String>, String),
    CreateIndex { name: Option<String>, table: Vec<String>, method: Option<String>, unique: bool, elems: Vec<IndexElem>, pred: Option<Expr>, if_not_exists: bool },
    CreateSeq { name: Vec<String>, opts: SeqOpts, if_not_exists: bool },
    CreateFunc { name: Vec<String>, args: Vec<FuncArg>, ret: Option<TypeName>, lang: Option<String>, vol: Option<char>, body: Option<String>, replace: bool, strict: bool },
    DropFunc { name: Vec<String>, args: Option<Vec<FuncArg>>, if_exists: bool, cascade: bool },
    CreateView { name: Vec<String>, cols: Vec<String>, q: Select, text: String, replace: bool },
    Comment,
    Select(Select),
    Insert { table: Vec<String>, cols: Vec<String>, src: Select, defaults: bool, on_conflict_nothing: bool, returning: Vec<(Expr, Option<String>)> },
    Delete { table: Vec<String>, alias: Option<String>, wher: Option<Expr>, returning: Vec<(Expr, Option<String>)> },
    Update { table: Vec<String>, alias: Option<String>, sets: Vec<(String, Expr)>, wher: Option<Expr>, returning: Vec<(Expr, Option<String>)> },
    Truncate(Vec<Vec<String>>),
}
