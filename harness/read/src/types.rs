//! The types documents are read into; lib/typedocs.py describes them to the
//! specification.
use crate::{cps, facet_doc, facet_expr, serde_doc, wrote_expr, wrote_facet, wrote_serde, Dump};
use facet::Facet;
use facet_styx::{Documented, RawStyx};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap};

macro_rules! record { ($t:ident $($f:ident)*) => { impl Dump for $t { fn d(&self) -> J { json!(["r", [$(self.$f.field()),*]]) } } } }
fn variant(n: &str, v: Vec<J>) -> J {
    json!(["e", [cps(n), v]])
}

#[derive(Facet, Deserialize, Serialize)]
pub struct Inner {
    a: String,
    b: Option<i32>,
}
record!(Inner a b);

#[derive(Facet, Deserialize, Serialize)]
pub struct Conf {
    name: String,
    port: u16,
    #[facet(default)]
    #[serde(default)]
    on: bool,
    #[facet(default)]
    #[serde(default)]
    tags: Vec<String>,
    inner: Option<Inner>,
    #[facet(default)]
    #[serde(default)]
    env: BTreeMap<String, String>,
    mode: Option<Mode>,
}
record!(Conf name port on tags inner env mode);

#[derive(Facet, Deserialize, Serialize)]
#[facet(rename_all = "lowercase")]
#[serde(rename_all = "lowercase")]
#[repr(u8)]
pub enum Mode {
    Fast,
    Slow,
    Level(u8),
}
impl Dump for Mode {
    fn d(&self) -> J {
        match self {
            Mode::Fast => variant("fast", vec![]),
            Mode::Slow => variant("slow", vec![]),
            Mode::Level(n) => variant("level", vec![n.d()]),
        }
    }
}

#[derive(Facet, Deserialize, Serialize)]
#[repr(u8)]
pub enum En {
    Unit,
    Text(String),
    Num(i64),
    Pair(String, u8),
    Rec { a: String, b: Option<i32> },
    List(Vec<u8>),
    Sub(Inner),
    Map(BTreeMap<String, bool>),
    Nest(Mode),
    Opt(Option<Mode>),
}
impl Dump for En {
    fn d(&self) -> J {
        match self {
            En::Unit => variant("Unit", vec![]),
            En::Text(x) => variant("Text", vec![x.d()]),
            En::Num(x) => variant("Num", vec![x.d()]),
            En::Pair(x, y) => variant("Pair", vec![x.d(), y.d()]),
            En::Rec { a, b } => variant("Rec", vec![a.d(), b.d()]),
            En::List(x) => variant("List", vec![x.d()]),
            En::Sub(x) => variant("Sub", vec![x.d()]),
            En::Map(x) => variant("Map", vec![x.d()]),
            En::Nest(x) => variant("Nest", vec![x.d()]),
            En::Opt(x) => variant("Opt", vec![x.d()]),
        }
    }
}

#[derive(Facet, Deserialize, Serialize)]
#[facet(deny_unknown_fields)]
#[serde(deny_unknown_fields)]
pub struct Deny {
    v: u8,
    w: Option<String>,
}
record!(Deny v w);

fn seven() -> u8 {
    7
}
#[derive(Facet, Deserialize, Serialize)]
pub struct Def {
    #[facet(default)]
    #[serde(default)]
    v: u8,
    #[facet(default = 7)]
    #[serde(default = "seven")]
    w: u8,
    #[facet(default)]
    #[serde(default)]
    l: Vec<i8>,
    #[facet(default)]
    #[serde(default)]
    m: BTreeMap<String, u8>,
    o: Option<Vec<String>>,
}
record!(Def v w l m o);

#[derive(Facet, Deserialize, Serialize)]
pub struct Node {
    name: String,
    #[facet(default)]
    #[serde(default)]
    kids: Vec<Node>,
    #[facet(default)]
    #[serde(default)]
    named: BTreeMap<String, Node>,
}
record!(Node name kids named);

#[derive(Facet, Deserialize, Serialize)]
#[facet(rename_all = "kebab-case")]
#[serde(rename_all = "kebab-case")]
pub struct Kebab {
    max_conns: u32,
    #[facet(rename = "X y")]
    #[serde(rename = "X y")]
    z: Option<String>,
    is_on: Option<bool>,
}
record!(Kebab max_conns z is_on);

#[derive(Facet)]
pub struct Flat {
    id: String,
    #[facet(flatten)]
    rest: Inner,
}
record!(Flat id rest);

#[derive(Facet)]
pub struct Extra {
    id: String,
    #[facet(flatten)]
    rest: BTreeMap<String, String>,
}
record!(Extra id rest);

#[derive(Facet)]
#[facet(untagged)]
#[repr(u8)]
pub enum Any {
    N(u8),
    S(String),
    L(Vec<Any>),
    M(BTreeMap<String, Any>),
}
impl Dump for Any {
    fn d(&self) -> J {
        match self {
            Any::N(x) => variant("N", vec![x.d()]),
            Any::S(x) => variant("S", vec![x.d()]),
            Any::L(x) => variant("L", vec![x.d()]),
            Any::M(x) => variant("M", vec![x.d()]),
        }
    }
}

#[derive(Facet)]
pub struct Docs {
    a: Documented<String>,
    b: Option<Documented<u8>>,
    c: Documented<Vec<String>>,
}
record!(Docs a b c);

#[derive(Facet)]
pub struct Late {
    a: i64,
    b: String,
    c: Option<String>,
    d: Documented<i64>,
    #[facet(default)]
    e: Vec<Documented<String>>,
    f: Option<Inner>,
    g: Option<Documented<String>>,
    h: Option<Box<Late>>,
    #[facet(default)]
    i: BTreeMap<String, Late>,
}
record!(Late a b c d e f g h i);

type M<T> = BTreeMap<String, T>;
type K<T> = HashMap<Documented<String>, T>;

macro_rules! reads {
    ($how:ident, $ty:ident, $s:ident; both $($n:literal $t:ty),* ; facet $($m:literal $u:ty),*) => {
        match ($how, $ty) {
            $(("facet", $n) => facet_doc::<$t>($s),)*
            $(("expr", $n) => facet_expr::<$t>($s),)*
            $(("serde", $n) => serde_doc::<$t>($s),)*
            $(("write", $n) => wrote_facet::<$t>($s),)*
            $(("wexpr", $n) => wrote_expr::<$t>($s),)*
            $(("swrite", $n) => wrote_serde::<$t>($s),)*
            $(("facet", $m) => facet_doc::<$u>($s),)*
            $(("expr", $m) => facet_expr::<$u>($s),)*
            $(("write", $m) => wrote_facet::<$u>($s),)*
            $(("wexpr", $m) => wrote_expr::<$u>($s),)*
            other => panic!("unknown {other:?}"),
        }
    };
}

pub fn read(how: &str, ty: &str, s: &str) -> J {
    reads!(how, ty, s; both
        "str" String, "i8" i8, "u8" u8, "i16" i16, "u16" u16, "i32" i32, "u32" u32, "i64" i64, "u64" u64,
        "f64" f64, "bool" bool, "char" char,
        "mstr" M<String>, "mi8" M<i8>, "mu8" M<u8>, "mi16" M<i16>, "mu16" M<u16>, "mi32" M<i32>, "mu32" M<u32>,
        "mi64" M<i64>, "mu64" M<u64>, "mf64" M<f64>, "mbool" M<bool>, "mchar" M<char>,
        "mostr" M<Option<String>>, "moi32" M<Option<i32>>, "mlstr" M<Vec<String>>, "mli64" M<Vec<i64>>,
        "mlostr" M<Vec<Option<String>>>, "mllu8" M<Vec<Vec<u8>>>, "mpair" M<(String, i64)>, "mtriple" M<(u8, Vec<String>, bool)>,
        "mmstr" M<M<String>>, "mmlu8" M<M<Vec<u8>>>, "mmmstr" M<M<M<String>>>, "men" M<En>, "mmode" M<Mode>, "mlen" M<Vec<En>>,
        "minner" M<Inner>, "mlinner" M<Vec<Inner>>, "moinner" M<Option<Inner>>, "mbox" M<Box<Inner>>, "marr" M<[u8; 2]>,
        "mset" M<BTreeSet<String>>, "mku8" M<BTreeMap<u8, String>>,
        "Inner" Inner, "Conf" Conf, "Deny" Deny, "Def" Def, "Node" Node, "Kebab" Kebab, "mConf" M<Conf>, "mNode" M<Node>,
        "mDeny" M<Deny>, "mDef" M<Def>
        ; facet
        "i128" i128, "u128" u128, "mi128" M<i128>, "mu128" M<u128>, "mf32" M<f32>,
        "Flat" Flat, "Extra" Extra, "mFlat" M<Flat>, "mExtra" M<Extra>, "many" M<Any>, "mraw" M<RawStyx>, "Docs" Docs, "mdoc" M<Documented<String>>,
        "kstr" K<String>, "kinner" K<Inner>, "mkstr" M<K<String>>, "klen" K<Vec<En>>, "kkmode" K<K<Mode>>,
        "mLate" M<Late>, "mlLate" M<Vec<Late>>, "mmf64" M<M<f64>>)
}
