//! Types whose generated schemas are checked; lib/shapedocs.py describes them
//! to the specification.
use crate::cps;
use facet::Facet;
use facet_styx::{schema_from_type, Documented, GenerateSchema, LspExtensionConfig, RawStyx};
use serde_json::{json, Value as J};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Facet, Default)]
pub struct Inner {
    a: String,
    b: Option<i32>,
}
fn none(v: &Vec<u8>) -> bool {
    v.is_empty()
}
fn texts() -> Vec<String> {
    ["p", "q r", "@t"].map(String::from).to_vec()
}
fn map() -> BTreeMap<String, Vec<u8>> {
    [("k".to_string(), vec![1]), ("k l".to_string(), vec![])].into_iter().collect()
}
fn pair() -> (u8, String) {
    (1, "z".to_string())
}
#[derive(Facet)]
pub struct Skips {
    a: String,
    #[facet(skip, default)]
    b: u8,
    #[facet(skip_deserializing, default)]
    c: u8,
    #[facet(skip_serializing)]
    d: u8,
    #[facet(default, skip_serializing_if = none)]
    e: Vec<u8>,
}
#[derive(Facet, Default)]
#[facet(rename_all = "snake_case")]
#[repr(u8)]
#[allow(dead_code)]
pub enum Level {
    #[default]
    VeryLow,
    High,
    Other(u8),
    Range { lo: i8, #[facet(default = 3)] hi: i8 },
}
/// Words about it
/// and more
#[derive(Facet)]
pub struct Defaults {
    /// a text
    #[facet(default = "a b".to_string())]
    s: String,
    #[facet(default = "".to_string())]
    empty: String,
    /// two
    /// lines
    #[facet(default = Some(3u8))]
    o: Option<u8>,
    #[facet(default)]
    none: Option<String>,
    #[facet(default = Inner { a: "x{".into(), b: Some(-1) })]
    inner: Inner,
    #[facet(default)]
    level: Level,
    #[facet(default = Level::Range { lo: -2, hi: 9 })]
    range: Level,
    #[facet(default = Level::Other(5))]
    other: Level,
    #[facet(default = texts())]
    list: Vec<String>,
    #[facet(default = map())]
    map: BTreeMap<String, Vec<u8>>,
    #[facet(default = 1.5)]
    f: f64,
    #[facet(default = -7)]
    i: i64,
    #[facet(default = 'é')]
    c: char,
    #[facet(default = true)]
    t: bool,
    #[facet(default = u64::MAX)]
    big: u64,
    #[facet(default = pair())]
    pair: (u8, String),
    #[facet(default = "a\nb\nc".to_string())]
    lines: String,
    #[facet(default = "q\"\\".to_string())]
    quote: String,
}
#[derive(Facet)]
pub struct Pair<T> {
    x: T,
    y: Option<T>,
}
#[derive(Facet)]
pub struct Generics {
    a: Pair<String>,
    b: Pair<u8>,
    c: Option<Pair<Vec<bool>>>,
}
#[derive(Facet)]
pub struct Tuples {
    a: (String, u8),
    b: (u8, String),
    c: Option<(bool, bool, bool)>,
}
pub mod one {
    #[derive(facet::Facet)]
    pub struct Item {
        pub a: u8,
    }
}
pub mod two {
    #[derive(facet::Facet)]
    pub struct Item {
        pub b: String,
        pub c: Option<super::one::Item>,
    }
}
#[derive(Facet)]
pub struct Names {
    x: one::Item,
    y: two::Item,
}
#[derive(Facet)]
pub struct New(String);
#[derive(Facet)]
pub struct Newer(New);
#[derive(Facet)]
pub struct Two(u8, String);
#[derive(Facet)]
#[facet(transparent)]
pub struct Clear(Vec<u8>);
#[derive(Facet)]
pub struct Wraps {
    a: New,
    b: Newer,
    c: Two,
    d: Clear,
    e: Option<New>,
    f: BTreeMap<String, Two>,
}
#[derive(Facet)]
pub struct Points {
    a: Box<Inner>,
    b: Arc<Inner>,
    c: Rc<String>,
    d: Cow<'static, str>,
    e: Option<Box<u8>>,
    f: Vec<Arc<bool>>,
}
#[derive(Facet)]
pub struct Base {
    id: String,
    #[facet(default)]
    n: u8,
}
#[derive(Facet)]
pub struct Middle {
    #[facet(flatten)]
    base: Base,
    m: bool,
}
#[derive(Facet)]
pub struct Top {
    #[facet(flatten)]
    middle: Middle,
    t: Option<String>,
}
#[derive(Facet)]
pub struct TopMap {
    t: Option<String>,
    #[facet(flatten)]
    rest: HashMap<String, Vec<u8>>,
}
#[derive(Facet)]
pub struct UsesFlat {
    x: Top,
    y: Option<Middle>,
    z: BTreeMap<String, TopMap>,
}
#[derive(Facet)]
#[repr(u8)]
#[allow(dead_code)]
pub enum Kinds {
    Nothing,
    New(New),
    #[facet(rename = "two-parts")]
    Two(u8, String),
    Deep(Vec<Option<Level>>),
    Obj { a: Inner, #[facet(default)] b: Vec<u8>, #[facet(rename = "C")] c: Option<bool> },
    Map(BTreeMap<String, Kinds>),
    Boxed(Box<Kinds>),
    Opt(Option<u8>),
    Tup((u8, bool)),
    Unit(()),
}
#[derive(Facet)]
pub struct HasKinds {
    k: Kinds,
    l: Option<Level>,
}
#[derive(Facet)]
#[facet(untagged)]
#[repr(u8)]
#[allow(dead_code)]
pub enum Loose {
    N(u8),
    S(String),
    L(Vec<Loose>),
    M(BTreeMap<String, Loose>),
}
#[derive(Facet)]
#[facet(untagged)]
#[repr(u8)]
#[allow(dead_code)]
pub enum OneOrMany {
    One(u8),
    Many(Vec<u8>),
}
#[derive(Facet)]
pub struct HasLoose {
    a: Loose,
    b: Option<OneOrMany>,
}
#[derive(Facet)]
pub struct Raws {
    a: RawStyx,
    b: Option<RawStyx>,
    c: Vec<RawStyx>,
}
#[derive(Facet)]
pub struct Tree {
    v: i32,
    left: Option<Box<Tree>>,
    #[facet(default)]
    kids: Vec<Tree>,
}
#[derive(Facet)]
pub struct Ping {
    pong: Option<Box<Pong>>,
    name: String,
}
#[derive(Facet)]
pub struct Pong {
    ping: Option<Box<Ping>>,
    on: bool,
}
#[derive(Facet)]
#[facet(rename_all = "camelCase")]
pub struct Odd {
    two_words: u8,
    #[facet(rename = "a.b")]
    dotted: Option<String>,
    #[facet(rename = "@at")]
    at: Option<String>,
    #[facet(rename = "k k")]
    space: Option<u8>,
    #[facet(rename = "1")]
    digit: Option<u8>,
    #[facet(rename = "schema")]
    schema: Option<String>,

}
#[derive(Facet)]
#[facet(default)]
pub struct AllDefault {
    a: u8,
    b: String,
    c: Option<bool>,
}
impl Default for AllDefault {
    fn default() -> Self {
        AllDefault { a: 4, b: "bb".into(), c: None }
    }
}
#[derive(Facet)]
pub struct Holds {
    d: AllDefault,
    #[facet(default)]
    e: AllDefault,
}
#[derive(Facet)]
pub struct Many {
    a: HashSet<String>,
    b: BTreeSet<u8>,
    c: Vec<Option<bool>>,
    d: [u8; 3],
    e: Vec<Vec<(u8, Inner)>>,
    f: HashMap<String, HashMap<String, Option<Inner>>>,
    g: BTreeMap<u8, bool>,
}
#[derive(Facet)]
pub struct Std {
    a: PathBuf,
    c: i128,
    d: usize,
    e: f32,
    f: char,
    g: Documented<String>,
    h: Option<Documented<u8>>,
    i: HashMap<Documented<String>, Documented<Inner>>,
}
#[derive(Facet)]
pub struct More {
    /// one
    ///
    ///   indented
    ///tight
    a: Arc<str>,
    b: Box<[u8]>,
    d: Option<Option<u8>>,
    ///
    e: [String; 2],
    f: BTreeMap<String, [bool; 1]>,
    /// {braces} @tag "q" // c
    g: HashSet<u8>,
    h: Rc<BTreeMap<String, Arc<Inner>>>,
}
/// What follows
///
/// a gap
#[derive(Facet)]
#[facet(rename_all = "SCREAMING_SNAKE_CASE")]
pub struct Shout {
    one_word: u8,
    /// kept
    #[facet(rename = "low")]
    other_word: Option<String>,
    #[facet(default = 2)]
    by_default: u8,
    kind: Option<Case>,
}
#[derive(Facet)]
#[facet(rename_all = "kebab-case")]
#[repr(u8)]
#[allow(dead_code)]
pub enum Case {
    FirstOne,
    SecondOne { inner_field: u8, #[facet(rename = "Re")] other: Option<u8> },
    #[facet(rename = "III")]
    Third(Vec<Case>),
}
#[derive(Facet)]
#[repr(C)]
#[allow(dead_code)]
pub enum Res {
    A { r: Result<u8, String> },
    B(Result<Inner, u8>),
}

macro_rules! shapes {
    ($ty:ident, $s:ident; $($n:literal $t:ty),* $(,)?) => {
        match $ty {
            $($n => {
                let read = facet_styx::from_str::<$t>($s);
                let built = GenerateSchema::<$t>::new().crate_name("a-b").version("1.2.3").cli("tool x").lsp(LspExtensionConfig {
                    launch: vec!["tool".into(), "lsp ext".into()],
                    capabilities: None,
                });
                json!({"schema": cps(&schema_from_type::<$t>()), "built": cps(&built.generate()), "ok": read.is_ok(), "why": read.err().map(|e| e.to_string()).unwrap_or_default()})
            })*
            other => panic!("unknown {other:?}"),
        }
    };
}
type M<T> = BTreeMap<String, T>;
pub fn shape(ty: &str, s: &str) -> J {
    use crate::types as t;
    shapes!(ty, s;
        "Skips" Skips, "Defaults" Defaults, "Generics" Generics, "Tuples" Tuples, "Names" Names, "Wraps" Wraps, "Points" Points,
        "Top" Top, "Middle" Middle, "TopMap" TopMap, "UsesFlat" UsesFlat, "HasKinds" HasKinds, "mKinds" M<Kinds>, "mLevel" M<Level>,
        "HasLoose" HasLoose, "mLoose" M<Loose>, "Raws" Raws, "Tree" Tree, "mTree" M<Tree>, "Ping" Ping, "Odd" Odd,
        "AllDefault" AllDefault, "More" More, "Shout" Shout, "mCase" M<Case>, "mRes" M<Res>, "Holds" Holds, "Many" Many, "Std" Std,
        "mNew" M<New>, "mTwo" M<Two>, "mpp" M<Pair<Pair<u8>>>, "mClear" M<Clear>,
        "mstr" M<String>, "mf64" M<f64>, "mbool" M<bool>, "mchar" M<char>, "mostr" M<Option<String>>, "mllu8" M<Vec<Vec<u8>>>,
        "mtriple" M<(u8, Vec<String>, bool)>, "men" M<t::En>, "mmode" M<t::Mode>, "mmmstr" M<M<M<String>>>, "mku8" M<BTreeMap<u8, String>>,
        "Inner" Inner, "Conf" t::Conf, "Deny" t::Deny, "Def" t::Def, "Node" t::Node, "Kebab" t::Kebab, "Flat" t::Flat, "Extra" t::Extra,
        "mFlat" M<t::Flat>, "mExtra" M<t::Extra>, "Docs" t::Docs, "mLate" M<t::Late>)
}
