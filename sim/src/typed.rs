//! S13: ordinary Rust types over the stream, through serde.
//!
//! Every type here states, independently of the library, which abstract value each of its values
//! is (`val`). The library supplies the schema and moves the bytes.

use crate::ctx::{Ctx, Run, K};
use crate::gen;
use crate::model::{self, veq, Bad};
use crate::must;
use crate::paths::*;
use crate::sess::*;
use crate::stream::*;
use crate::worlds::{describe, end_state, equal, Pool};
use binschema::error::{Error, ErrorKind};
use binschema::value::{EnumValue, ScalarValue, StructValueField, Value};
use binschema::{CoderState, Decoder, Encoder, KnownSchema, ScalarType, Schema};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::Hash;
use std::ops::{Bound, Range, RangeInclusive};
use std::sync::OnceLock;

pub trait Ty: KnownSchema + Serialize + DeserializeOwned + 'static {
    /// has no values
    const BARREN: bool = false;
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self;
    /// The abstract value. `canon`: in an order that does not depend on how it came about.
    fn val(&self, canon: bool) -> Value;
}

// ---- helpers ----

fn field(name: &str, value: Value) -> StructValueField {
    // `r#type` is the field called `type`
    StructValueField { name: name.strip_prefix("r#").unwrap_or(name).into(), value }
}

fn tup(mut xs: Vec<Value>) -> Value {
    match xs.len() {
        0 => Value::Unit,
        1 => xs.pop().unwrap(),
        _ => Value::Tuple(xs),
    }
}

fn variant(ord: usize, name: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.strip_prefix("r#").unwrap_or(name).into(), value: Box::new(v) })
}

fn sorted(mut xs: Vec<Value>, canon: bool) -> Vec<Value> {
    if canon {
        xs.sort_by_cached_key(|x| format!("{:?}", x));
    }
    xs
}

fn count(ctx: &Ctx, fuel: &mut i64) -> usize {
    if *fuel <= 0 {
        return 0;
    }
    let n = match ctx.draw(24) {
        0 => *ctx.pick(&[127usize, 128, 129, 200]),
        1..=5 => 0,
        6..=10 => 1,
        _ => ctx.below(6),
    };
    *fuel -= 1 + n as i64;
    n
}

fn elems<T: Ty>(ctx: &Ctx, fuel: &mut i64) -> Vec<T> {
    let n = if T::BARREN { 0 } else { count(ctx, fuel) };
    (0..n).map(|_| T::gen(ctx, fuel)).collect()
}

// ---- standard types ----

macro_rules! scalars {
    ($($t:ty, $k:ident;)*) => {$(
        impl Ty for $t {
            fn gen(ctx: &Ctx, _: &mut i64) -> Self {
                match gen::scalar(ctx, ScalarType::$k) {
                    ScalarValue::$k(x) => x as $t,
                    _ => unreachable!(),
                }
            }
            fn val(&self, _: bool) -> Value {
                Value::Scalar(ScalarValue::$k(*self as _))
            }
        }
    )*};
}
scalars! {
    u8, U8; u16, U16; u32, U32; u64, U64; u128, U128;
    i8, I8; i16, I16; i32, I32; i64, I64; i128, I128;
    f32, F32; f64, F64; char, Char; bool, Bool; usize, U64; isize, I64;
}

impl Ty for String {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        gen::string(ctx, fuel)
    }
    fn val(&self, _: bool) -> Value {
        Value::Str(self.clone())
    }
}
impl Ty for () {
    fn gen(_: &Ctx, _: &mut i64) -> Self {}
    fn val(&self, _: bool) -> Value {
        Value::Unit
    }
}
impl<T: Ty> Ty for Option<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        *fuel -= 1;
        if !T::BARREN && *fuel > 0 && ctx.chance(2, 3) {
            Some(T::gen(ctx, fuel))
        } else {
            None
        }
    }
    fn val(&self, c: bool) -> Value {
        Value::Option(self.as_ref().map(|x| Box::new(x.val(c))))
    }
}
impl<T: Ty> Ty for Box<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        Box::new(T::gen(ctx, fuel))
    }
    fn val(&self, c: bool) -> Value {
        (**self).val(c)
    }
}
impl<T: Ty + Clone> Ty for Cow<'static, T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        Cow::Owned(T::gen(ctx, fuel))
    }
    fn val(&self, c: bool) -> Value {
        (**self).val(c)
    }
}
macro_rules! lists {
    ($($c:ident: $($b:ident)*;)*) => {$(
        impl<T: Ty $(+ $b)*> Ty for $c<T> {
            fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
                elems::<T>(ctx, fuel).into_iter().collect()
            }
            fn val(&self, c: bool) -> Value {
                Value::VarLenSeq(self.iter().map(|x| x.val(c)).collect())
            }
        }
    )*};
}
lists! {
    Vec:; VecDeque:; LinkedList:; BTreeSet: Ord;
}
impl<T: Ty + Ord> Ty for BinaryHeap<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        elems::<T>(ctx, fuel).into_iter().collect()
    }
    fn val(&self, c: bool) -> Value {
        Value::VarLenSeq(sorted(self.iter().map(|x| x.val(c)).collect(), c))
    }
}
// Hashed collections iterate in an order that is not under the simulator's control: at most one element.
impl<T: Ty + Eq + Hash> Ty for HashSet<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        *fuel -= 2;
        let n = if *fuel > 0 { ctx.below(2) } else { 0 };
        (0..n).map(|_| T::gen(ctx, fuel)).collect()
    }
    fn val(&self, c: bool) -> Value {
        Value::VarLenSeq(sorted(self.iter().map(|x| x.val(c)).collect(), c))
    }
}
impl<A: Ty + Eq + Hash, B: Ty> Ty for HashMap<A, B> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        *fuel -= 2;
        let n = if *fuel > 0 { ctx.below(2) } else { 0 };
        (0..n).map(|_| (A::gen(ctx, fuel), B::gen(ctx, fuel))).collect()
    }
    fn val(&self, c: bool) -> Value {
        Value::VarLenSeq(sorted(self.iter().map(|(k, v)| Value::Tuple(vec![k.val(c), v.val(c)])).collect(), c))
    }
}
impl<A: Ty + Ord, B: Ty> Ty for BTreeMap<A, B> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        let n = count(ctx, fuel);
        (0..n).map(|_| (A::gen(ctx, fuel), B::gen(ctx, fuel))).collect()
    }
    fn val(&self, c: bool) -> Value {
        Value::VarLenSeq(self.iter().map(|(k, v)| Value::Tuple(vec![k.val(c), v.val(c)])).collect())
    }
}
macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<T: Ty> Ty for [T; $n] {
            fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
                std::array::from_fn(|_| T::gen(ctx, fuel))
            }
            fn val(&self, c: bool) -> Value {
                Value::FixedLenSeq(self.iter().map(|x| x.val(c)).collect())
            }
        }
    )*};
}
arrays!(0 1 2 3 32);
macro_rules! tuples {
    ($($($t:ident)+;)*) => {$(
        #[allow(non_snake_case)]
        impl<$($t: Ty),+> Ty for ($($t,)+) {
            fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
                ($($t::gen(ctx, fuel),)+)
            }
            fn val(&self, c: bool) -> Value {
                let ($($t,)+) = self;
                Value::Tuple(vec![$($t.val(c)),+])
            }
        }
    )*};
}
tuples! {
    A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H;
    A B C D E F G H I; A B C D E F G H I J; A B C D E F G H I J L;
}
impl<T: Ty> Ty for Range<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        T::gen(ctx, fuel)..T::gen(ctx, fuel)
    }
    fn val(&self, c: bool) -> Value {
        Value::Struct(vec![field("start", self.start.val(c)), field("end", self.end.val(c))])
    }
}
impl<T: Ty> Ty for RangeInclusive<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        T::gen(ctx, fuel)..=T::gen(ctx, fuel)
    }
    fn val(&self, c: bool) -> Value {
        Value::Struct(vec![field("start", self.start().val(c)), field("end", self.end().val(c))])
    }
}
impl<T: Ty> Ty for Bound<T> {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        match ctx.draw(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(T::gen(ctx, fuel)),
            _ => Bound::Excluded(T::gen(ctx, fuel)),
        }
    }
    fn val(&self, c: bool) -> Value {
        match self {
            Bound::Unbounded => variant(0, "Unbounded", Value::Unit),
            Bound::Included(x) => variant(1, "Included", x.val(c)),
            Bound::Excluded(x) => variant(2, "Excluded", x.val(c)),
        }
    }
}
impl Ty for Schema {
    fn gen(ctx: &Ctx, _: &mut i64) -> Self {
        let mut o = gen::PLAIN;
        o.big_enums = false;
        gen::schema(ctx, o)
    }
    fn val(&self, _: bool) -> Value {
        crate::worlds2::schema_value(self)
    }
}

// ---- derived types ----

macro_rules! structs {
    ($($(#[$a:meta])* $n:ident { $($(#[$m:meta])* $f:ident: $t:ty),* $(,)? })*) => {$(
        #[derive(Serialize, Deserialize, KnownSchema)]
        $(#[$a])*
        #[allow(non_snake_case)]
        pub struct $n { $($(#[$m])* $f: $t),* }
        impl Ty for $n {
            #[allow(unused)]
            fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
                *fuel -= 1;
                $n { $($f: <$t as Ty>::gen(ctx, fuel)),* }
            }
            #[allow(unused)]
            fn val(&self, c: bool) -> Value {
                Value::Struct(vec![$(field(stringify!($f), self.$f.val(c))),*])
            }
        }
    )*};
}
macro_rules! tuple_structs {
    ($($(#[$a:meta])* $n:ident ( $($(#[$m:meta])* $x:ident: $t:ty),* $(,)? ))*) => {$(
        #[derive(Serialize, Deserialize, KnownSchema)]
        $(#[$a])*
        pub struct $n ( $($(#[$m])* $t),* );
        impl Ty for $n {
            #[allow(unused)]
            fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
                *fuel -= 1;
                $n ( $(<$t as Ty>::gen(ctx, fuel)),* )
            }
            #[allow(unused)]
            fn val(&self, c: bool) -> Value {
                let $n($($x),*) = self;
                tup(vec![$($x.val(c)),*])
            }
        }
    )*};
}
macro_rules! enums {
    ($($(#[$a:meta])* $n:ident [ $($v:ident
        $( ( $($(#[$m:meta])* $x:ident: $t:ty),* $(,)? ) )?
        $( { $($(#[$fm:meta])* $f:ident: $ft:ty),* $(,)? } )?
    ),* $(,)? ])*) => {$(
        #[derive(Serialize, Deserialize, KnownSchema)]
        $(#[$a])*
        #[allow(non_camel_case_types)]
        pub enum $n {
            $($v $( ( $($(#[$m])* $t),* ) )? $( { $($(#[$fm])* $f: $ft),* } )?),*
        }
        impl Ty for $n {
            // with no fuel left: the first variant, which must not recurse
            #[allow(unused)]
            fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
                *fuel -= 1;
                let names: &[&str] = &[$(stringify!($v)),*];
                let i = if *fuel > 0 { gen::ordinal(ctx, names.len(), *fuel) } else { 0 };
                let mut n = 0;
                $(
                    if n == i {
                        return $n::$v $( ( $(<$t as Ty>::gen(ctx, fuel)),* ) )? $( { $($f: <$ft as Ty>::gen(ctx, fuel)),* } )?;
                    }
                    n += 1;
                )*
                unreachable!()
            }
            #[allow(unused)]
            fn val(&self, c: bool) -> Value {
                let names: &[&str] = &[$(stringify!($v)),*];
                let (name, body) = match self {
                    $($n::$v $( ( $($x),* ) )? $( { $($f),* } )? => {
                        let mut body = Value::Unit;
                        $( body = tup(vec![$($x.val(c)),*]); )?
                        $( body = Value::Struct(vec![$(field(stringify!($f), $f.val(c))),*]); )?
                        (stringify!($v), body)
                    })*
                };
                variant(names.iter().position(|x| *x == name).unwrap(), name, body)
            }
        }
    )*};
}

/// A type with no values.
#[derive(Serialize, Deserialize, KnownSchema)]
pub enum Never {}
impl Ty for Never {
    const BARREN: bool = true;
    fn gen(_: &Ctx, _: &mut i64) -> Self {
        panic!("sim: generated a Never")
    }
    fn val(&self, _: bool) -> Value {
        match *self {}
    }
}

structs! {
    Empty {}
    One { only: u32 }
    Mixed { a: u8, b: String, c: [i16; 3], d: (), e: (i32,), f: (i32, i8), g: char, h: bool, i: f64, j: Option<u64>, k: Vec<u16> }
    Units { a: (), b: UnitStruct, c: ZeroTuple, d: Empty, e: [(); 3], f: [u8; 0], g: [UnitStruct; 0], h: ((),) }
    Nested { one: One, many: Vec<One>, maybe: Option<Mixed>, new: New, pair: Pair }
    Words { r#type: u32, r#match: String, r#fn: Option<u8> }
    Empties { a: Vec<u32>, b: BTreeMap<String, u32>, c: HashMap<u8, String>, d: HashSet<u8>, e: BTreeSet<i32>, f: VecDeque<bool>, g: LinkedList<char>, h: BinaryHeap<u64>, i: String, k: Vec<Never> }
    ZeroWidths { j: Vec<()>, l: BTreeMap<(), ()>, m: Vec<UnitStruct>, n: Vec<Lonely0>, o: VecDeque<[u8; 0]> }
    Ranges { a: Range<u32>, b: RangeInclusive<i64>, c: Bound<u8>, d: (Bound<i32>, Bound<i32>), e: Range<Option<u8>>, f: Option<RangeInclusive<char>>, g: Vec<Range<u16>> }
    Maps { a: BTreeMap<u32, Vec<BTreeMap<String, u8>>>, b: BTreeMap<(u8, u8), Option<One>>, c: HashMap<String, (u8, HashMap<u8, u8>)> }
    Barren { a: Option<Never>, b: Vec<Never>, c: u8 }
    Blobs { a: Blob, b: Vec<Blob>, c: Option<Blob> }
    Letters { s: Letter, t: Vec<Letter> }
    Borrowed { a: Cow<'static, Letter2>, b: Box<u32>, c: Box<Option<Box<String>>>, d: Cow<'static, u64> }
    Wide { a: i128, b: u128, c: usize, d: isize, e: i64, f: i32, g: u16, h: f32 }
    Results { ok: Vec<Outcome>, last: Option<Outcome> }
    // recursive through
    ListO { head: u32, tail: Option<Box<ListO>> }
    TreeV { value: u8, kids: Vec<TreeV> }
    TreeM { kids: BTreeMap<String, TreeM>, value: u16 }
    TreeH { value: u8, kids: HashMap<u8, TreeH> }
    TreeT { a: u8, b: (u8, Vec<(TreeT, u8)>) }
    TreeA { a: Option<Box<[TreeA; 2]>>, v: i32 }
    TreeR { r: Option<Box<Range<TreeR>>>, v: u8 }
    TreeB { b: Vec<Bound<TreeB>>, v: u8 }
    TreeQ { q: VecDeque<TreeQ>, l: LinkedList<TreeQ>, v: u8 }
    TreeN { n: NewVec, v: u8 }
    TreeNN { n: NewNewOpt, v: u8 }
    TreeRI { r: Option<Box<RangeInclusive<TreeRI>>>, v: u8 }
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    TreeS { kids: BTreeSet<TreeS>, v: u8 }
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    TreeMK { m: BTreeMap<TreeMK, TreeMV>, v: u8 }
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    TreeMV { k: Option<Box<TreeMK>>, w: Vec<TreeMV> }
    #[derive(PartialEq, Eq)]
    TreeHS { kids: HashSet<TreeHS>, v: u8 }
    #[derive(Clone)]
    TreeC { c: Vec<Cow<'static, Box<TreeC>>>, o: Option<Cow<'static, Box<TreeC>>>, v: u8 }
    TreeP { p: Vec<(u8, (TreeP, (u16, Option<Box<TreeP>>)))>, v: u8 }
    TreeAA { a: Vec<[[Option<Box<TreeAA>>; 2]; 1]>, v: u8 }
    TreeRB { a: Vec<Range<Bound<TreeRB>>>, v: u8 }
    Hosts { a: Addr, b: Vec<Addr>, c: Option<Addr> }
    TreeOO { n: Option<Option<Box<TreeOO>>>, v: u8 }
    // mutually recursive
    MutA { b: Vec<MutB>, x: u8 }
    MutB { a: Option<Box<MutA>>, c: Vec<MutC>, y: i16 }
    MutC { a: Vec<MutA>, b: Option<Box<MutB>>, c: Option<Box<MutC>>, z: bool }
    IsoA { next: Option<Box<IsoB>> }
    IsoB { next: Option<Box<IsoA>> }
    Diamond { l: DiaL, r: DiaR, v: u8 }
    DiaL { d: Option<Box<Diamond>>, v: u8 }
    DiaR { d: Vec<Diamond>, o: Option<Box<DiaL>>, v: u8 }
    // explicit levels
    OuterW { kids: Vec<InnerW>, v: u8 }
    InnerW { #[schema(recurse = 3)] outer: Box<OuterW>, v: u8 }
    Keys { a: BTreeMap<Letter2, u8>, b: BTreeSet<Letter2>, c: BTreeSet<Option<u8>>, d: BinaryHeap<(u8, Letter2)>, e: HashSet<Letter2>, f: BTreeMap<Box<String>, ()> }
    Sparse {
        #[serde(skip_serializing_if = "Option::is_none")]
        a: Option<u32>,
        b: u8,
        #[serde(skip_serializing_if = "Option::is_none")]
        c: Option<Box<Sparse>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        d: Option<Vec<Gap>>,
    }
    SparseOnly {
        #[serde(skip_serializing_if = "Option::is_none")]
        only: Option<String>,
    }
    Docs {
        /// a comment
        a: Letter,
        #[allow(dead_code)]
        b: u8,
    }
}
tuple_structs! {
    ZeroTuple()
    New(a: u32)
    NewNew(a: New)
    NewUnit(a: ())
    NewOpt(a: Option<String>)
    NewStruct(a: Mixed)
    NewEnum(a: Shape)
    Pair(a: f32, b: f64)
    Triple(a: One, b: New, c: (u8, u8))
    NewVec(a: Vec<TreeN>)
    NewNewOpt(a: NewOptNN)
    NewOptNN(a: Option<Box<TreeNN>>)
    SelfNew(a: Vec<SelfNew>)
    SelfNewNew(a: SelfNewInner)
    SelfNewInner(a: Option<Box<SelfNewNew>>)
    SelfPair(a: u8, b: Option<Box<SelfPair>>)
    SelfPairMap(a: BTreeMap<u8, SelfPairMap>, b: u8)
    NewMap(a: BTreeMap<u8, NewMap>)
    NewTup(a: Option<Box<(NewTup, u8)>>)
    NewHand(#[schema(recurse = 1)] a: Box<HandVia>)
}
impl Hash for TreeHS {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
/// Coded by serde according to whether the format is for people to read.
#[derive(Serialize, Deserialize)]
pub struct Addr(std::net::Ipv4Addr);
impl KnownSchema for Addr {
    fn schema(_: binschema::RecurseStack) -> Schema {
        binschema::schema!(seq(4)(u8))
    }
}
impl Ty for Addr {
    fn gen(ctx: &Ctx, _: &mut i64) -> Self {
        Addr((ctx.draw(1 << 32) as u32).into())
    }
    fn val(&self, _: bool) -> Value {
        Value::FixedLenSeq(self.0.octets().iter().map(|x| Value::Scalar(ScalarValue::U8(*x))).collect())
    }
}
enums! {
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    SetTree [Leaf(v: u8), Node(l: Box<SetTree>, more: BTreeSet<SetTree>), Named { m: BTreeMap<String, SetTree> }, Key { m: BTreeMap<SetTree, ()> }, Both(b: BTreeMap<SetTree, SetTree>)]
    HeapTree [Leaf(v: u8), Node(kids: BinaryHeap<HeapLeaf>), Named { m: BTreeMap<String, HeapTree> }]
    // one variant short of, at and over the ordinals of one byte
    Many255 [V0(x: u16), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253 { x: u8 }, V254(x: u8)]
    Many256 [V0(x: u16), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254 { x: u8 }, V255(x: u8)]
    Many257 [V0(x: u16), V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 { x: u8 }, V256(x: u8)]
    Shape [Dot, Circle(r: f32), Line(a: i32, b: i32), Rect { w: u32, h: u32 }, Zero(), Blank {}, Poly(p: Vec<(i8, i8)>), Opt(o: Option<u8>), U(u: ()), N(n: New), S(s: One), T(t: (u8,))]
    Letter [A, B, C]
    Lonely [Only(x: u16)]
    LonelyUnit [Only]
    Lonely0 [Only()]
    LonelyStruct [Only { x: String, y: Option<u8> }]
    Outcome [Ok(x: u32), Err { code: i32, message: String }]
    Keywords [r#type, r#Self_(x: u8), r#match { r#in: u8 }]
    Tree [Leaf(v: u32), Branch { value: u32, left: Box<Tree>, right: Box<Tree> }]
    Tree2 [Leaf, Node(l: Box<Tree2>, v: u8, r: Box<Tree2>), Wrap(w: Box<Tree2>), Many(m: Vec<Tree2>), Map { m: BTreeMap<u8, Tree2> }, Opt(o: Option<Box<Tree2>>), Pair(p: Box<(Tree2, Tree2)>)]
    Json [Null, Bool(b: bool), Num(n: f64), Str(s: String), Arr(a: Vec<Json>), Obj(o: BTreeMap<String, Json>)]
    Expr [Lit(v: i64), Bin(op: BinOp, l: Box<Expr>, r: Box<Expr>), Call { f: String, args: Vec<Expr> }, Block(b: Vec<Stmt>), Neg(e: Box<Expr>)]
    BinOp [Add, Sub, Mul]
    Stmt [Nop, Let { name: String, value: Box<Expr> }, If(c: Box<Expr>, t: Vec<Stmt>, e: Option<Box<Stmt>>), Eval(e: Box<Expr>)]
    Hand [End, Cons { v: u8, #[schema(recurse = 2)] next: Box<Hand> }, Same(#[schema(recurse = 1)] s: Box<Hand>), Two(v: u16, #[schema(recurse = 2)] s: Box<Hand>)]
    HandVia [End, Via(x: NewHand)]
    Gap [No, Hole {
        #[serde(skip_serializing_if = "Option::is_none")]
        a: Option<Option<u8>>,
        #[serde(skip_serializing_if = "Option::is_none")]
        b: Option<SparseOnly>,
    }, Rim {
        x: i16,
        #[serde(skip_serializing_if = "Option::is_none")]
        r: Option<Box<Gap>>,
    }]
    EnNew [End, Via(v: Box<EnNewIn>), Pair(p: Box<EnNewIn>, q: u8)]
}
structs! {
    // equal whatever it holds, so that a heap can be compared
    HeapLeaf { t: Option<Box<HeapTree>>, v: u8 }
    EnNewIn { back: Option<Box<EnNew>>, more: Vec<EnNew> }
}

impl PartialEq for HeapLeaf {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl Eq for HeapLeaf {}
impl PartialOrd for HeapLeaf {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HeapLeaf {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}

#[derive(Clone, Serialize, Deserialize, KnownSchema, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Letter2 {
    X,
    Y(u8),
    Z { z: char },
}
impl Ty for Letter2 {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        match ctx.draw(3) {
            0 => Letter2::X,
            1 => Letter2::Y(u8::gen(ctx, fuel)),
            _ => Letter2::Z { z: char::gen(ctx, fuel) },
        }
    }
    fn val(&self, c: bool) -> Value {
        match self {
            Letter2::X => variant(0, "X", Value::Unit),
            Letter2::Y(y) => variant(1, "Y", y.val(c)),
            Letter2::Z { z } => variant(2, "Z", Value::Struct(vec![field("z", z.val(c))])),
        }
    }
}

#[derive(Serialize, Deserialize, KnownSchema)]
pub struct UnitStruct;
impl Ty for UnitStruct {
    fn gen(_: &Ctx, _: &mut i64) -> Self {
        UnitStruct
    }
    fn val(&self, _: bool) -> Value {
        Value::Unit
    }
}

/// A byte string, with its schema stated by hand.
pub struct Blob(Vec<u8>);
impl KnownSchema for Blob {
    fn schema(_: binschema::RecurseStack) -> Schema {
        binschema::schema!(bytes)
    }
}
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Blob, E> {
                Ok(Blob(b.to_vec()))
            }
            fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(b))
            }
        }
        d.deserialize_byte_buf(V)
    }
}
impl Ty for Blob {
    fn gen(ctx: &Ctx, fuel: &mut i64) -> Self {
        Blob(gen::bytes(ctx, fuel))
    }
    fn val(&self, _: bool) -> Value {
        Value::Bytes(self.0.clone())
    }
}

// ---- the table ----

type R<T> = Result<T, Error>;

pub struct Vt {
    pub name: &'static str,
    /// every abstract value of the schema is exactly one value of the type
    pub exact: bool,
    pub schema: fn() -> Schema,
    pub gen: fn(&Ctx, &mut i64) -> Box<dyn Any>,
    pub val: fn(&dyn Any, bool) -> Value,
    pub ser: fn(&dyn Any, &mut CoderState, &mut SimWriter) -> R<()>,
    pub de: fn(&mut CoderState, &mut SimReader) -> R<Box<dyn Any>>,
}

fn vt<T: Ty>(name: &'static str, exact: bool) -> Vt {
    Vt {
        name,
        exact,
        schema: || T::schema(Default::default()),
        gen: |ctx, fuel| Box::new(T::gen(ctx, fuel)),
        val: |x, c| x.downcast_ref::<T>().unwrap().val(c),
        ser: |x, st, w| x.downcast_ref::<T>().unwrap().serialize(&mut Encoder::new(st, w)),
        de: |st, r| T::deserialize(&mut Decoder::new(st, r)).map(|x| Box::new(x) as Box<dyn Any>),
    }
}

macro_rules! table {
    (exact: $($t:ty),* $(,)?; loose: $($l:ty),* $(,)?;) => {
        fn table() -> Vec<Vt> {
            vec![$(vt::<$t>(stringify!($t), true),)* $(vt::<$l>(stringify!($l), false),)*]
        }
    };
}

table! {
    exact:
        u8, u64, i128, f32, char, bool, usize, isize, String, (), Schema,
        Option<u32>, Option<Option<bool>>, Option<()>, Vec<u8>, Vec<String>, Vec<Vec<Option<i16>>>, VecDeque<u32>, LinkedList<String>,
        Vec<()>, [u8; 0], [String; 1], [Option<u16>; 32], [[i32; 2]; 3], Vec<[u8; 2]>, Box<u64>, Option<Box<[Vec<u8>; 2]>>,
        (u8,), (u8, String), (u8, u16, u32), (i8, (), Vec<u8>, Option<u8>), (u8, u8, u8, u8, u8), (u8, u16, u32, u64, u128, i8),
        (u8, (u8, (u8,)), u8, bool, char, f32, f64), (u8, u8, u8, u8, u8, u8, u8, String), (u8, u8, u8, u8, u8, u8, u8, u8, i64),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, Option<i64>), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Vec<i64>),
        Range<u32>, RangeInclusive<String>, Bound<u16>, Vec<Bound<Range<u8>>>, (Bound<u8>, Bound<u8>),
        Empty, One, Mixed, Units, Nested, Words, Ranges, Barren, Blobs, Blob, Letters, Borrowed, Wide, Results, Docs, Sparse, SparseOnly, Gap, Vec<Sparse>,
        ListO, TreeV, TreeT, TreeA, TreeR, TreeB, TreeQ, TreeN, TreeNN, TreeOO, MutA, MutB, MutC, IsoA, IsoB,
        TreeRI, TreeC, TreeP, TreeAA, TreeRB, Addr, Hosts, Option<TreeRI>,
        Diamond, DiaL, DiaR, OuterW, HandVia, Hand,
        ZeroTuple, UnitStruct, New, NewNew, NewUnit, NewOpt, NewStruct, NewEnum, Pair, Triple, NewVec, NewNewOpt, SelfNew, SelfNewNew, SelfPair, NewTup,
        Shape, Letter, Letter2, Lonely, LonelyUnit, LonelyStruct, Outcome, Keywords, Tree, Expr, Stmt, EnNew, EnNewIn,
        Many255, Many256, Many257,
        Vec<Vec<Vec<Vec<u64>>>>, VecDeque<Vec<Box<Vec<String>>>>, Vec<(u8, Vec<[Vec<u128>; 2]>)>,
        Option<IsoB>, Vec<MutC>, (MutB, MutA), Option<NewVec>, [Shape; 2], Vec<Keywords>, Option<Tree>, Bound<Expr>, Range<TreeNN>,
        Vec<SelfNew>, (NewTup, SelfNewNew);
    loose:
        BTreeMap<String, u32>, HashMap<u8, String>, BTreeSet<String>, HashSet<u32>, BinaryHeap<i32>, BTreeMap<u8, BTreeMap<u8, ()>>,
        BTreeMap<(u8, String), Vec<Letter>>, HashMap<(u8, u8), HashMap<String, ListO>>, BTreeSet<(u8, Option<i8>)>, BinaryHeap<(String, u8)>,
        BTreeMap<u8, Vec<HashMap<u8, VecDeque<u64>>>>, Vec<BinaryHeap<Vec<u64>>>,
        TreeS, TreeMK, TreeMV, TreeHS, Vec<TreeMK>, BTreeSet<TreeS>, HeapLeaf, HeapTree, SetTree,
        Empties, ZeroWidths, Maps, Keys, TreeM, TreeH, SelfPairMap, NewMap, Json, Tree2, Box<Tree2>, Vec<Json>, BTreeMap<String, TreeM>, Option<TreeH>;
}

pub struct Types {
    pub all: Vec<Vt>,
    pub schemas: Vec<Schema>,
    /// types with the same schema
    kin: Vec<Vec<usize>>,
    /// types of which every element takes up room in a message
    pub tame: Vec<usize>,
}

pub fn types() -> &'static Types {
    static T: OnceLock<Types> = OnceLock::new();
    T.get_or_init(|| {
        let all = table();
        let schemas: Vec<Schema> = all.iter().map(|t| (t.schema)()).collect();
        let kin = (0..all.len())
            .map(|i| (0..all.len()).filter(|j| all[i].exact && all[*j].exact && schemas[i] == schemas[*j]).collect())
            .collect();
        let tame = (0..all.len()).filter(|i| gen::tame(&schemas[*i])).collect();
        Types { all, schemas, kin, tame }
    })
}

// ---- the world ----

/// How a peer reads or writes a message of some type.
#[derive(Copy, Clone)]
enum Side {
    /// as that Rust type
    Typed(usize),
    /// as another Rust type with the same schema
    Kin(usize),
    Dynamic,
}

fn side(ctx: &Ctx, i: usize) -> Side {
    match ctx.draw(6) {
        0..=2 => Side::Typed(i),
        3 => Side::Kin(*ctx.pick(&types().kin[i][..])),
        _ => Side::Dynamic,
    }
}

pub fn fuel(ctx: &Ctx) -> i64 {
    *ctx.pick(&[4i64, 10, 30, 90])
}

pub fn typed(ctx: &Ctx) -> Run {
    let t = types();
    match ctx.draw(4) {
        0 | 1 => talk(ctx, t),
        2 => broken(ctx, t),
        _ => damaged(ctx, t),
    }
}

fn draw_value(ctx: &Ctx, t: &Types, i: usize) -> Result<(Box<dyn Any>, Value), crate::ctx::Violation> {
    let x = (t.all[i].gen)(ctx, &mut fuel(ctx));
    let v = (t.all[i].val)(&*x, false);
    describe(ctx, &t.schemas[i], Some(&v));
    must!(model::conforms(&t.schemas[i], &v), "schema", "{}: the type's schema {} does not describe its value {}", t.all[i].name, short(&format!("{:?}", t.schemas[i])), short(&format!("{:?}", v)));
    Ok((x, v))
}

fn talk(ctx: &Ctx, t: &Types) -> Run {
    let mut pool = Pool(vec![]);
    let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
    let mut msgs = vec![];
    for _ in 0..1 + ctx.below(3) {
        let i = ctx.below(t.all.len());
        let s = &t.schemas[i];
        let (x, v) = draw_value(ctx, t, i)?;
        let mut st = CoderState::new(s, pool.take(ctx), None);
        let at = w.sink.len();
        let how = if ctx.chance(3, 4) { Side::Typed(i) } else { Side::Dynamic };
        let r = match how {
            Side::Dynamic => enc_all(ctx, enc_path(ctx), s, &v, &mut st, &mut w),
            _ => {
                ctx.call();
                (t.all[i].ser)(&*x, &mut st, &mut w)
            }
        };
        ctx.ev(80, i as u64, r.is_ok() as u64, || format!("send {} -> {}", t.all[i].name, show(&r)));
        must!(r.is_ok(), "encode-failed", "{}: value {} refused on a lossless stream: {}", t.all[i].name, short(&format!("{:?}", v)), show(&r));
        must!(st.is_finished() && st.is_finished_or_err().is_ok(), "not-finished", "{}: encoder not finished after a whole value", t.all[i].name);
        let want = model::encode(s, &v);
        must!(w.sink[at..] == want[..], "bytes", "{}: {} sent as {:02x?}, its schema says {:02x?}", t.all[i].name, short(&format!("{:?}", v)), clip(&w.sink[at..]), clip(&want));
        pool.give(ctx, st);
        msgs.push((i, x, v, want.len()));
    }
    let mut r = SimReader::new(ctx, 1, w.sink, Manner::draw(ctx));
    for (i, x, v, n) in &msgs {
        let s = &t.schemas[*i];
        let at = r.pos;
        let mut st = CoderState::new(s, pool.take(ctx), None);
        let name;
        let got: R<(Option<Value>, Option<Value>)> = match if t.all[*i].exact { side(ctx, *i) } else if ctx.chance(2, 3) { Side::Typed(*i) } else { Side::Dynamic } {
            Side::Typed(j) | Side::Kin(j) => {
                name = t.all[j].name.to_string();
                ctx.call();
                // canonical on both ends when it is the same type
                (t.all[j].de)(&mut st, &mut r).map(|y| {
                    if j == *i {
                        (Some((t.all[j].val)(&*y, true)), Some((t.all[j].val)(&**x, true)))
                    } else {
                        (Some((t.all[j].val)(&*y, false)), Some(v.clone()))
                    }
                })
            }
            Side::Dynamic => {
                let p = dec_path(ctx);
                name = format!("{:?}", p);
                dec_all(ctx, p, s, &mut st, &mut r).map(|g| (g, Some(v.clone())))
            }
        };
        ctx.ev(81, *i as u64, got.is_ok() as u64, || format!("receive {} as {} -> {}", t.all[*i].name, name, show(&got)));
        match &got {
            Err(_) => return bad("decode-failed", format!("{} read as {}: whole message refused: {}", t.all[*i].name, name, show(&got))),
            Ok((g, want)) => equal(&format!("{} read as {}", t.all[*i].name, name), g, want.as_ref().unwrap())?,
        }
        must!(r.pos == at + n, "consumed", "{} read as {}: consumed {} bytes of a {} byte message", t.all[*i].name, name, r.pos - at, n);
        must!(st.is_finished() && st.is_finished_or_err().is_ok(), "not-finished", "{} read as {}: decoder not finished after a whole value", t.all[*i].name, name);
        ctx.count(K::PFinished);
        pool.give(ctx, st);
    }
    must!(r.pos == r.data.len(), "leftover", "{} bytes left over after the last message", r.data.len() - r.pos);
    Ok(())
}

/// The stream fails or ends within the message.
fn broken(ctx: &Ctx, t: &Types) -> Run {
    let i = ctx.below(t.all.len());
    let s = &t.schemas[i];
    let name = t.all[i].name;
    let (x, v) = draw_value(ctx, t, i)?;
    let want = model::encode(s, &v);
    if want.is_empty() {
        return Ok(());
    }
    let at = if ctx.chance(1, 3) { want.len() - 1 - ctx.below(want.len().min(3)) } else { ctx.below(want.len()) };
    let mut pool = Pool(vec![]);
    let mut st = CoderState::new(s, pool.take(ctx), None);
    if ctx.chance(1, 3) {
        let mut w = SimWriter::new(ctx, 0, Manner::draw(ctx));
        let f = draw_fault(ctx, WRITE_FKS, at);
        w.fault = Some(f);
        ctx.call();
        let r = (t.all[i].ser)(&*x, &mut st, &mut w);
        match &r {
            Ok(()) => return bad("failure-hidden", format!("{}: sending over {:?} succeeded", name, f)),
            Err(e) => must!(e.kind() == ErrorKind::Io && f.carried_by(e), "failure-cause", "{}: sending over {:?}: {}", name, f, show(&r)),
        }
        must!(want.starts_with(&w.sink), "prefix", "{}: the part sent {:02x?} is not a prefix of {:02x?}", name, clip(&w.sink), clip(&want));
    } else {
        let mut r = SimReader::new(ctx, 1, want, Manner::draw(ctx));
        let f = draw_fault(ctx, READ_FKS, at);
        r.fault = Some(f);
        ctx.call();
        let got = (t.all[i].de)(&mut st, &mut r).map(|y| (t.all[i].val)(&*y, true));
        match &got {
            Ok(y) => return bad("cut-accepted", format!("{}: message cut at byte {} read as {:?}", name, at, y)),
            Err(e) => must!(e.kind() == ErrorKind::Io && f.carried_by(e), "failure-cause", "{}: reading over {:?}: {}", name, f, show(&got)),
        }
    }
    end_state(&st, false)?;
    // the allocation goes on to serve
    let mut st = CoderState::new(s, st.into_alloc(), None);
    let mut w = SimWriter::new(ctx, 2, Manner::CALM);
    let r = (t.all[i].ser)(&*x, &mut st, &mut w);
    must!(r.is_ok() && st.is_finished() && w.sink == model::encode(s, &v), "resume", "{}: sending again: {}", name, show(&r));
    Ok(())
}

fn damaged(ctx: &Ctx, t: &Types) -> Run {
    let i = ctx.below(t.all.len());
    let s = &t.schemas[i];
    let name = t.all[i].name;
    let (_, v) = draw_value(ctx, t, i)?;
    let mut data = model::encode(s, &v);
    data.truncate(20_000);
    if !gen::tame(s) {
        return Ok(());
    }
    damage(ctx, &mut data);
    ctx.ev(31, 0, 0, || format!("bytes now {:02x?}{}", clip(&data), if data.len() > 40 { "..." } else { "" }));
    let want = model::decode(s, &data);
    let mut st = CoderState::new(s, Pool(vec![]).take(ctx), None);
    let mut r = SimReader::new(ctx, 1, data, Manner::draw(ctx));
    ctx.call();
    let got = (t.all[i].de)(&mut st, &mut r).map(|y| (t.all[i].val)(&*y, t.all[i].exact));
    let shown = got.as_ref().err().map_or(String::new(), |e| format!("{:?}: {}", e.kind(), e.inner()));
    ctx.ev(82, i as u64, got.is_ok() as u64, || format!("receive {} -> {}", name, if shown.is_empty() { "ok" } else { &shown }));
    match (&want.0, &got) {
        (Ok(v), Ok(g)) => {
            if t.all[i].exact {
                must!(veq(g, v), "value", "{}: bytes are {} but were read as {}", name, short(&format!("{:?}", v)), short(&format!("{:?}", g)));
            }
            must!(r.pos == want.1, "consumed", "{}: consumed {} bytes of a {} byte message", name, r.pos, want.1);
            ctx.count(K::PAcceptedDamage);
            end_state(&st, true)
        }
        (Ok(v), Err(_)) => bad("decode-failed", format!("{}: bytes are the message {} but were refused: {}", name, short(&format!("{:?}", v)), shown)),
        (Err(b), Ok(g)) => bad("bad-accepted", format!("{}: bytes are {:?} but were read as {}", name, b, short(&format!("{:?}", g)))),
        (Err(b), Err(e)) => {
            bad_kind(name, *b, e, None, false)?;
            ctx.count(match b {
                Bad::Malformed => K::PMalformed,
                Bad::Limits | Bad::Huge => K::PLimits,
                Bad::Truncated => K::PTruncated,
                Bad::Illegal => K::PIllegalHit,
            });
            end_state(&st, false)
        }
    }
}
