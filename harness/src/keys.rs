//! C01: key encodings.
use std::fmt::Debug;
use std::num::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use bonsaidb_core::arc_bytes::serde::{Bytes, CowBytes};
use bonsaidb_core::arc_bytes::ArcBytes;
use bonsaidb_core::connection::Bound;
use bonsaidb_core::key::time::*;
use bonsaidb_core::key::{
    ByteSource, CompositeKeyDecoder, CompositeKeyEncoder, EnumKey, IntoPrefixRange, Key,
    KeyEncoding, NextValueError, VarInt,
};

use crate::engine::*;
use crate::{ensure, ensure_eq, fail};

/// A key type with a generator, and an explanation of ordering anomalies that
/// are listed as known findings.
pub trait KGen: for<'k> Key<'k> + Ord + Debug + Clone + 'static {
    fn g(s: &mut Source) -> Self;
    /// Why `a` and `b` are *known* to be mis-ordered, if they are.
    fn explain(_a: &Self, _b: &Self) -> Option<&'static str> {
        None
    }
    /// Whether the next value must be the immediate successor (`None` is
    /// followed by the first value of the sequence, which need not be the
    /// smallest one).
    fn exact_successor(&self) -> bool {
        true
    }
    fn name() -> String {
        std::any::type_name::<Self>()
            .replace("bonsaidb_core::", "")
            .replace("alloc::", "")
    }
}

macro_rules! gen_unsigned {
    ($($t:ty),*) => {$(impl KGen for $t {
        fn g(s: &mut Source) -> Self { s.interesting_u64(<$t>::MAX as u64) as $t }
    })*};
}
gen_unsigned!(u8, u16, u32, u64, usize);
fn g_i64(s: &mut Source, bits: u32) -> i64 {
    let max = if bits == 64 { i64::MAX as u64 } else { (1u64 << (bits - 1)) - 1 };
    let m = s.interesting_u64(max) as i64;
    if s.bool() {
        -m - 1
    } else {
        m
    }
}
macro_rules! gen_signed {
    ($($t:ty),*) => {$(impl KGen for $t {
        fn g(s: &mut Source) -> Self { g_i64(s, <$t>::BITS) as $t }
        fn explain(a: &Self, b: &Self) -> Option<&'static str> {
            // Known: fixed-width signed integers are stored in two's
            // complement, so negative values sort after positive ones.
            ((*a < 0) != (*b < 0)
                && a.as_ord_bytes().ok()?.as_ref() == a.to_be_bytes()
                && b.as_ord_bytes().ok()?.as_ref() == b.to_be_bytes())
            .then_some("signed-fixed-width-order")
        }
    })*};
}
gen_signed!(i8, i16, i32, i64);
impl KGen for isize {
    fn g(s: &mut Source) -> Self {
        g_i64(s, 64) as isize
    }
}
fn g_u128(s: &mut Source) -> u128 {
    if s.bool() {
        u128::from(s.interesting_u64(u64::MAX)) << (8 * s.draw(8))
    } else {
        u128::MAX - u128::from(s.interesting_u64(u64::MAX))
    }
}
impl KGen for u128 {
    fn g(s: &mut Source) -> Self {
        g_u128(s)
    }
}
impl KGen for i128 {
    fn g(s: &mut Source) -> Self {
        let m = (g_u128(s) >> 1) as i128;
        if s.bool() {
            -m - 1
        } else {
            m
        }
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        ((*a < 0) != (*b < 0)
            && a.as_ord_bytes().ok()?.as_ref() == a.to_be_bytes()
            && b.as_ord_bytes().ok()?.as_ref() == b.to_be_bytes())
        .then_some("signed-fixed-width-order")
    }
}
macro_rules! gen_nonzero {
    ($($t:ident $i:ty),*) => {$(impl KGen for $t {
        fn g(s: &mut Source) -> Self {
            let v = <$i as KGen>::g(s);
            $t::new(if v == 0 { 1 } else { v }).unwrap()
        }
        fn explain(a: &Self, b: &Self) -> Option<&'static str> {
            <$i as KGen>::explain(&a.get(), &b.get())
        }
    })*};
}
gen_nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize, NonZeroUsize usize);
/// ordered-varint stores at most 124 bits.
macro_rules! gen_varint {
    ($($t:ty),*) => {$(impl KGen for VarInt<$t> {
        fn g(s: &mut Source) -> Self { VarInt(<$t as KGen>::g(s)) }
    })*};
}
gen_varint!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl KGen for VarInt<u128> {
    fn g(s: &mut Source) -> Self {
        VarInt(g_u128(s) >> 4)
    }
}
impl KGen for VarInt<i128> {
    fn g(s: &mut Source) -> Self {
        let m = (g_u128(s) >> 5) as i128;
        VarInt(if s.bool() { -m - 1 } else { m })
    }
}
impl KGen for String {
    fn g(s: &mut Source) -> Self {
        if s.chance(1, 60) {
            // long fields exercise the multi-byte length suffix
            let n = *s.pick(&[126usize, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 20000, 65534, 65535]);
            let mut v = "q".repeat(n);
            v.push_str(&s.string(2, 1));
            while v.len() > 65535 - 200 {
                v.pop();
            }
            return v;
        }
        s.string(6, 2)
    }
}
impl KGen for Vec<u8> {
    fn g(s: &mut Source) -> Self {
        s.bytes(6, 2)
    }
}
impl KGen for Bytes {
    fn g(s: &mut Source) -> Self {
        Bytes::from(s.bytes(6, 2))
    }
}
impl KGen for [u8; 3] {
    fn g(s: &mut Source) -> Self {
        [u8::g(s), u8::g(s), u8::g(s)]
    }
}
impl KGen for bool {
    fn g(s: &mut Source) -> Self {
        s.bool()
    }
}
impl KGen for () {
    fn g(_: &mut Source) -> Self {}
}
impl KGen for uuid::Uuid {
    fn g(s: &mut Source) -> Self {
        uuid::Uuid::from_u128(g_u128(s))
    }
}
impl KGen for Duration {
    fn g(s: &mut Source) -> Self {
        Duration::new(
            s.interesting_u64(u64::MAX),
            *[0, 1, 999_999_999].get(s.below(4)).unwrap_or(&(s.draw(999_999_999) as u32)),
        )
    }
}
impl KGen for SystemTime {
    fn g(s: &mut Source) -> Self {
        UNIX_EPOCH
            + Duration::new(
                s.interesting_u64(i64::MAX as u64 - 1),
                *[0, 1, 999_999_999].get(s.below(4)).unwrap_or(&(s.draw(999_999_999) as u32)),
            )
    }
}
macro_rules! gen_time {
    ($($d:ident $i:ty, $t1:ident, $t2:ident);*) => {$(
        impl KGen for $d { fn g(s: &mut Source) -> Self { $d::new(<$i as KGen>::g(s)) } }
        impl KGen for $t1 { fn g(s: &mut Source) -> Self { $t1::from_representation(<$i as KGen>::g(s)) } }
        impl KGen for $t2 { fn g(s: &mut Source) -> Self { $t2::from_representation(<$i as KGen>::g(s)) } }
    )*};
}
gen_time!(Weeks i32, WeeksSinceUnixEpoch, TimestampAsWeeks; Days i32, DaysSinceUnixEpoch, TimestampAsDays;
  Hours i32, HoursSinceUnixEpoch, TimestampAsHours; Minutes i32, MinutesSinceUnixEpoch, TimestampAsMinutes;
  Seconds i64, SecondsSinceUnixEpoch, TimestampAsSeconds; Milliseconds i64, MillisecondsSinceUnixEpoch, TimestampAsMilliseconds;
  Microseconds i64, MicrosecondsSinceUnixEpoch, TimestampAsMicroseconds; Nanoseconds i64, NanosecondsSinceUnixEpoch, TimestampAsNanoseconds);

impl<T> KGen for Option<T>
where
    T: KGen,
{
    fn g(s: &mut Source) -> Self {
        s.chance(3, 4).then(|| T::g(s))
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        match (a, b) {
            (Some(a), Some(b)) => T::explain(a, b),
            _ => None,
        }
    }
    fn exact_successor(&self) -> bool {
        self.as_ref().is_some_and(T::exact_successor)
    }
}
impl<T, E> KGen for Result<T, E>
where
    T: KGen,
    E: KGen + for<'k> Key<'k> + KeyEncoding<E, Error = <T as KeyEncoding<T>>::Error>,
{
    fn g(s: &mut Source) -> Self {
        if s.bool() {
            Err(E::g(s))
        } else {
            Ok(T::g(s))
        }
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        match (a, b) {
            (Ok(a), Ok(b)) => T::explain(a, b),
            (Err(a), Err(b)) => E::explain(a, b),
            _ => None,
        }
    }
}
/// Ordering anomaly of the first differing field of a composite key.
fn explain_field<T: KGen>(a: &T, b: &T) -> Option<Option<&'static str>> {
    if a == b {
        return None;
    }
    if let Some(e) = T::explain(a, b) {
        return Some(Some(e));
    }
    if T::LENGTH.is_none() {
        let (Ok(x), Ok(y)) = (a.as_ord_bytes(), b.as_ord_bytes()) else {
            return Some(None);
        };
        let (short, long) = if x.len() < y.len() { (x, y) } else { (y, x) };
        // Known: a field that is a proper prefix of another one which
        // continues with a null byte sorts by what follows the field.
        if long.starts_with(&short) && long.len() > short.len() && long[short.len()] == 0 {
            return Some(Some("composite-null-prefix-order"));
        }
    }
    Some(None)
}
macro_rules! gen_tuple {
    ($($g:ident $i:tt),+) => {
        impl<$($g),+> KGen for ($($g,)+) where $($g: KGen),+ {
            fn g(s: &mut Source) -> Self { ($($g::g(s),)+) }
            fn explain(a: &Self, b: &Self) -> Option<&'static str> {
                $( if let Some(r) = explain_field(&a.$i, &b.$i) { return r; } )+
                None
            }
        }
    };
}
gen_tuple!(A 0);
gen_tuple!(A 0, B 1);
gen_tuple!(A 0, B 1, C 2);
gen_tuple!(A 0, B 1, C 2, D 3);
gen_tuple!(A 0, B 1, C 2, D 3, E 4);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
gen_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);

// ---- derived keys ----
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Named {
    pub a: u64,
    pub b: String,
    pub c: Option<u16>,
}
impl KGen for Named {
    fn g(s: &mut Source) -> Self {
        Named { a: u64::g(s), b: String::g(s), c: Option::g(s) }
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        <(u64, String, Option<u16>)>::explain(&(a.a, a.b.clone(), a.c), &(b.a, b.b.clone(), b.c))
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pair(pub String, pub u32);
impl KGen for Pair {
    fn g(s: &mut Source) -> Self {
        Pair(String::g(s), u32::g(s))
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        <(String, u32)>::explain(&(a.0.clone(), a.1), &(b.0.clone(), b.1))
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Transparent(pub String);
impl KGen for Transparent {
    fn g(s: &mut Source) -> Self {
        Transparent(String::g(s))
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Nothing;
impl KGen for Nothing {
    fn g(_: &mut Source) -> Self {
        Nothing
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Plain {
    A,
    B,
    C = 7,
    D,
    E = 300,
    F,
}
impl KGen for Plain {
    fn g(s: &mut Source) -> Self {
        s.pick(&[Plain::A, Plain::B, Plain::C, Plain::D, Plain::E, Plain::F]).clone()
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u32)]
pub enum Repr {
    A,
    B = 0x00FF_00FF,
    C = 0xFF00_00FF,
}
impl KGen for Repr {
    fn g(s: &mut Source) -> Self {
        s.pick(&[Repr::A, Repr::B, Repr::C]).clone()
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(enum_repr = u16)]
#[repr(u8)]
pub enum Fields {
    Unit,
    Tuple(u32, String),
    Struct { x: Option<String>, y: u8 },
    One(String),
    Last = 255,
}
impl KGen for Fields {
    fn g(s: &mut Source) -> Self {
        match s.draw(4) {
            0 => Fields::Unit,
            1 => Fields::Tuple(u32::g(s), String::g(s)),
            2 => Fields::Struct { x: Option::g(s), y: u8::g(s) },
            3 => Fields::One(String::g(s)),
            _ => Fields::Last,
        }
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        match (a, b) {
            (Fields::Tuple(a, b), Fields::Tuple(c, d)) => {
                <(u32, String)>::explain(&(*a, b.clone()), &(*c, d.clone()))
            }
            (Fields::Struct { x, y }, Fields::Struct { x: x2, y: y2 }) => {
                <(Option<String>, u8)>::explain(&(x.clone(), *y), &(x2.clone(), *y2))
            }
            (Fields::One(a), Fields::One(b)) => {
                <(String,)>::explain(&(a.clone(),), &(b.clone(),))
            }
            _ => None,
        }
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum FieldsDefault {
    A(u8),
    B,
    C(String, i64),
}
impl KGen for FieldsDefault {
    fn g(s: &mut Source) -> Self {
        match s.draw(2) {
            0 => FieldsDefault::A(u8::g(s)),
            1 => FieldsDefault::B,
            _ => FieldsDefault::C(String::g(s), i64::g(s)),
        }
    }
    fn explain(a: &Self, b: &Self) -> Option<&'static str> {
        match (a, b) {
            (FieldsDefault::C(a, b), FieldsDefault::C(c, d)) => {
                <(String, i64)>::explain(&(a.clone(), *b), &(c.clone(), *d))
            }
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Num {
    Zero,
    Mid = 200,
    Big = 70_000,
}
impl num_traits::ToPrimitive for Num {
    fn to_i64(&self) -> Option<i64> {
        Some(*self as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(*self as u64)
    }
}
impl num_traits::FromPrimitive for Num {
    fn from_i64(n: i64) -> Option<Self> {
        Self::from_u64(n as u64)
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(match n {
            0 => Num::Zero,
            200 => Num::Mid,
            70_000 => Num::Big,
            _ => return None,
        })
    }
}
impl KGen for EnumKey<Num> {
    fn g(s: &mut Source) -> Self {
        EnumKey(*s.pick(&[Num::Zero, Num::Mid, Num::Big]))
    }
}
/// `allow`/`deny` null handling: round trip only / ordered when it encodes.
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(null_handling = allow)]
pub struct Allowing {
    pub a: String,
    pub b: Vec<u8>,
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(null_handling = deny)]
pub struct Denying {
    pub a: String,
    pub b: Vec<u8>,
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(can_own_bytes)]
pub struct Borrowed<'a> {
    pub a: std::borrow::Cow<'a, str>,
    pub b: std::borrow::Cow<'a, [u8]>,
}

fn enc<T: KGen>(v: &T) -> Res<Vec<u8>> {
    match v.as_ord_bytes() {
        Ok(b) => Ok(b.into_owned()),
        Err(e) => Err(Failure::new(format!("{} {}: cannot be encoded: {e:?}", T::name(), short(v)))),
    }
}

fn roundtrip<T: KGen>(v: &T, bytes: &[u8]) -> Res {
    for mode in 0..3 {
        let src = match mode {
            0 => ByteSource::Borrowed(bytes),
            1 => ByteSource::Ephemeral(bytes),
            _ => ByteSource::Owned(bytes.to_vec()),
        };
        match T::from_ord_bytes(src) {
            Ok(d) => ensure!(
                &d == v,
                "{}: {} encoded as {:02x?} decodes to {} (mode {mode})",
                T::name(),
                short(v),
                short(&bytes),
                short(&d)
            ),
            Err(e) => fail!(
                "{}: {} encoded as {} does not decode: {e:?} (mode {mode})",
                T::name(),
                short(v),
                short(&bytes)
            ),
        }
    }
    Ok(())
}

fn check_pair<T: KGen>(s: &mut Source, ctx: &mut Ctx) -> Res {
    let a = T::g(s);
    let b = T::g(s);
    ctx.log(format!("{}: {} vs {}", T::name(), short(&a), short(&b)));
    if a != b {
        ctx.nontrivial();
    }
    for v in [&a, &b] {
        // A field of a composite key may not exceed 65535 bytes.
        if v.as_ord_bytes().is_err() && format!("{v:?}").len() > 65_000 {
            ctx.count("field_too_long_refused");
            return Ok(());
        }
    }
    let (ea, eb) = (enc(&a)?, enc(&b)?);
    roundtrip(&a, &ea)?;
    roundtrip(&b, &eb)?;
    let via_ref = <&T as KeyEncoding<T>>::as_ord_bytes(&&a).or_fail("encoding by reference")?.into_owned();
    ensure_eq!(via_ref, ea, "{} encoded through a reference", T::name());
    ensure!(
        (ea == eb) == (a == b),
        "{}: {} and {} have encodings {} and {}",
        T::name(), short(&a), short(&b), short(&ea), short(&eb)
    );
    // successor
    match a.next_value() {
        Ok(n) => {
            ensure!(n > a, "{}: next value of {} is {}, which is not larger", T::name(), short(&a), short(&n));
            ensure!(
                !(a.exact_successor() && a < b && b < n),
                "{}: next value of {} is {} but {} lies between",
                T::name(), short(&a), short(&n), short(&b)
            );
            roundtrip(&n, &enc(&n)?)?;
            ctx.count("next_value");
        }
        Err(NextValueError::WouldWrap) => {
            ctx.count("next_wraps");
            // A Result wraps within its variant.
            if !T::name().contains("Result<") {
                ensure!(b <= a, "{}: {} reports no next value but {} is larger", T::name(), short(&a), short(&b));
            }
        }
        Err(NextValueError::Unsupported) => {}
    }
    if ea.cmp(&eb) != a.cmp(&b) {
        let msg = format!(
            "{}: {} vs {} compare {:?} but their bytes {} vs {} compare {:?}",
            T::name(), short(&a), short(&b), a.cmp(&b), short(&ea), short(&eb), ea.cmp(&eb)
        );
        ctx.count("misordered");
        return Err(match T::explain(&a, &b) {
            Some(sig) => Failure::sig(sig, msg),
            None => Failure::new(msg),
        });
    }
    Ok(())
}
pub type CaseFnPtr = fn(&mut Source, &mut Ctx) -> Res;

macro_rules! fns {
    ($f:ident; $({$t:ty})*) => { vec![$($f::<$t> as CaseFnPtr),*] };
}
macro_rules! simple_types {
    ($f:ident) => {
        fns!($f;
            {u8} {u16} {u32} {u64} {u128} {i8} {i16} {i32} {i64} {i128} {usize} {isize} {NonZeroU8} {NonZeroU16}
            {NonZeroU32} {NonZeroU64} {NonZeroU128} {NonZeroI8} {NonZeroI16} {NonZeroI32} {NonZeroI64}
            {NonZeroI128} {NonZeroUsize} {NonZeroIsize} {VarInt<u8>} {VarInt<u16>} {VarInt<u32>} {VarInt<u64>}
            {VarInt<usize>} {VarInt<u128>} {VarInt<i8>} {VarInt<i16>} {VarInt<i32>} {VarInt<i64>} {VarInt<isize>}
            {VarInt<i128>} {String} {Vec<u8>} {Bytes} {[u8; 3]} {bool} {()} {uuid::Uuid} {Duration} {SystemTime}
            {Weeks} {Days} {Hours} {Minutes} {Seconds} {Milliseconds} {Microseconds} {Nanoseconds}
            {WeeksSinceUnixEpoch} {DaysSinceUnixEpoch} {HoursSinceUnixEpoch} {MinutesSinceUnixEpoch}
            {SecondsSinceUnixEpoch} {MillisecondsSinceUnixEpoch} {MicrosecondsSinceUnixEpoch}
            {NanosecondsSinceUnixEpoch} {TimestampAsWeeks} {TimestampAsDays} {TimestampAsHours}
            {TimestampAsMinutes} {TimestampAsSeconds} {TimestampAsMilliseconds} {TimestampAsMicroseconds}
            {TimestampAsNanoseconds} {Option<u32>} {Option<String>} {Option<Option<u8>>} {Option<i16>}
            {Option<VarInt<i64>>} {Result<u8, u16>} {Result<u16, u16>} {Result<String, String>} {EnumKey<Num>}
            {Plain} {Repr} {Transparent} {Nothing}
        )
    };
}
macro_rules! composite_types {
    ($f:ident) => {
        fns!($f;
            {(u8,)} {(String,)} {(u16, u32)} {(String, u8)} {(u8, String)} {(String, String)}
            {(Vec<u8>, Vec<u8>)} {(Bytes, u64)} {(isize, usize)} {(VarInt<i64>, String)} {(Option<u32>, u8)}
            {(Option<u8>, Option<u8>)} {(Option<String>, u16)} {(u8, Option<u64>)} {(Option<Option<u16>>, u8)}
            {(Result<u8, u16>, u8)} {(Result<String, String>, String)} {(bool, i32)} {(i64, String)}
            {(Duration, String)} {(TimestampAsSeconds, u32)} {(uuid::Uuid, [u8; 3])} {((), u8)}
            {((u8, String), u8)} {((u8, u16), (u32, u64))} {((String, String), String)}
            {(Option<(String, u8)>, u8)} {(Option<(u8, u8)>, String)} {(u8, String, u8)} {(String, u8, String)}
            {(String, String, String)} {(u8, u16, u32, u64)} {(String, u8, Vec<u8>, u8)}
            {(u8, String, Option<u8>, bool, u16)} {(u8, u8, u8, u8, u8, String)}
            {(String, u8, String, u8, String, u8, String)} {(u8, u8, String, u8, u8, u8, Vec<u8>, u8)} {Named}
            {Pair} {Fields} {FieldsDefault} {(Pair, u8)} {(Fields, Plain)} {(Plain, String)} {(Repr, u8)}
            {Option<Fields>} {(NonZeroU16, NonZeroI8)} {(Weeks, u8)} {(EnumKey<Num>, String)}
            {Option<(u8, Option<u8>)>}
        )
    };
}
/// Decoders of untrusted bytes (C02) for every key type.
pub fn decoders() -> Vec<CaseFnPtr> {
    use crate::decode::key_decoder;
    let mut v = simple_types!(key_decoder);
    v.extend(composite_types!(key_decoder));
    v
}

fn null_handling(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (a, b) = (String::g(s), Vec::<u8>::g(s));
    ctx.log(format!("null handling {a:?} {b:?}"));
    let has_null = a.bytes().any(|c| c == 0) || b.contains(&0);
    if has_null {
        ctx.nontrivial();
    }
    let al = Allowing { a: a.clone(), b: b.clone() };
    let e = al.as_ord_bytes().or_fail("allow")?.into_owned();
    ensure_eq!(Allowing::from_ord_bytes(ByteSource::Borrowed(&e)).or_fail("allow decode")?, al, "allow round trip");
    let de = Denying { a: a.clone(), b: b.clone() };
    match de.as_ord_bytes() {
        Ok(e) => {
            ensure!(!has_null, "denied null bytes were encoded: {de:?}");
            ensure_eq!(Denying::from_ord_bytes(ByteSource::Borrowed(&e)).or_fail("deny decode")?, de, "deny round trip");
        }
        Err(e) => ensure!(has_null, "no null byte in {de:?} but {e:?}"),
    }
    let bo = Borrowed { a: a.as_str().into(), b: b.as_slice().into() };
    let e = bo.as_ord_bytes().or_fail("borrowed")?.into_owned();
    ensure_eq!(Borrowed::from_ord_bytes(ByteSource::Borrowed(&e)).or_fail("borrowed decode")?, bo, "borrowed round trip");
    ensure_eq!(<(String, Vec<u8>)>::from_ord_bytes(ByteSource::Borrowed(&e)).or_fail("tuple decode")?, (a.clone(), b.clone()), "struct encodes like a tuple");
    // manual encoder
    let mut enc = CompositeKeyEncoder::default();
    enc.encode(&a).or_fail("encode")?;
    enc.encode(&7u16).or_fail("encode")?;
    enc.encode(b.as_slice().to_vec().as_slice().to_vec().as_mut() as &Vec<u8>).or_fail("encode")?;
    let out = enc.finish();
    let mut dec = CompositeKeyDecoder::default_for(ByteSource::Borrowed(&out));
    ensure_eq!(dec.decode::<String>().or_fail("decode")?, a, "manual decode 1");
    ensure_eq!(dec.decode::<u16>().or_fail("decode")?, 7, "manual decode 2");
    ensure_eq!(dec.decode::<Vec<u8>>().or_fail("decode")?, b, "manual decode 3");
    dec.finish().or_fail("finish")?;
    // borrowed flavours agree with owned ones
    let cow: std::borrow::Cow<'_, str> = a.as_str().into();
    ensure_eq!(cow.as_ord_bytes().or_fail("cow")?.as_ref(), a.as_bytes(), "cow str");
    let ab = ArcBytes::from(b.clone());
    ensure_eq!(ab.as_ord_bytes().or_fail("arcbytes")?.as_ref(), &b[..], "arc bytes");
    let cb = CowBytes::from(b.as_slice());
    ensure_eq!(cb.as_ord_bytes().or_fail("cowbytes")?.as_ref(), &b[..], "cow bytes");
    Ok(())
}

fn in_range(start: &Bound<Bytes>, end: &Bound<Bytes>, v: &[u8]) -> bool {
    (match start {
        Bound::Unbounded => true,
        Bound::Included(x) => v >= &x[..],
        Bound::Excluded(x) => v > &x[..],
    }) && (match end {
        Bound::Unbounded => true,
        Bound::Included(x) => v <= &x[..],
        Bound::Excluded(x) => v < &x[..],
    })
}

fn prefixes(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.bool() {
        let p = String::g(s);
        let v = if s.bool() {
            let mut v = p.clone();
            if s.bool() {
                v.pop();
            }
            v.push_str(&s.string(4, 1));
            v
        } else {
            String::g(s)
        };
        ctx.log(format!("prefix {:?} of {:?}", short(&p), short(&v)));
        let r = p.to_prefix_range();
        let r = r.as_ord_bytes().or_fail("range")?;
        let r2 = p.as_str().to_prefix_range();
        let r2 = r2.as_ord_bytes().or_fail("range")?;
        if v.starts_with(&p) {
            ctx.nontrivial();
        }
        ensure_eq!(in_range(&r.start, &r.end, v.as_bytes()), v.starts_with(&p), "string prefix range of {p:?} contains {v:?}");
        ensure_eq!(in_range(&r2.start, &r2.end, v.as_bytes()), v.starts_with(&p), "str prefix range of {p:?} contains {v:?}");
    } else {
        let p = s.bytes(5, 2);
        let v = if s.bool() {
            let mut v = p.clone();
            if s.bool() {
                v.pop();
            }
            v.extend(s.bytes(4, 1));
            v
        } else {
            s.bytes(6, 2)
        };
        ctx.log(format!("prefix {p:?} of {v:?}"));
        if v.starts_with(&p) {
            ctx.nontrivial();
        }
        let want = v.starts_with(&p);
        let r = p.to_prefix_range();
        let r = r.as_ord_bytes().or_fail("range")?;
        ensure_eq!(in_range(&r.start, &r.end, &v), want, "Vec<u8> prefix range of {p:?} contains {v:?}");
        let pb = Bytes::from(p.clone());
        let r = pb.to_prefix_range();
        let r = r.as_ord_bytes().or_fail("range")?;
        ensure_eq!(in_range(&r.start, &r.end, &v), want, "Bytes prefix range of {p:?} contains {v:?}");
        let pa = ArcBytes::from(p.clone());
        let r = pa.to_prefix_range();
        let bound = |b: &bonsaidb_core::connection::BoundRef<'_, ArcBytes<'_>>| {
            use bonsaidb_core::connection::{BoundRef, MaybeOwned};
            match b {
                BoundRef::Unbounded => Bound::Unbounded,
                BoundRef::Included(MaybeOwned::Owned(v)) => Bound::Included(Bytes::from(v.to_vec())),
                BoundRef::Included(MaybeOwned::Borrowed(v)) => Bound::Included(Bytes::from(v.to_vec())),
                BoundRef::Excluded(MaybeOwned::Owned(v)) => Bound::Excluded(Bytes::from(v.to_vec())),
                BoundRef::Excluded(MaybeOwned::Borrowed(v)) => Bound::Excluded(Bytes::from(v.to_vec())),
            }
        };
        ensure_eq!(in_range(&bound(&r.start), &bound(&r.end), &v), want, "ArcBytes prefix range of {p:?} contains {v:?}");
    }
    Ok(())
}

fn small_exhaustive<T: KGen + Copy>(all: &[T], ctx: &mut Ctx) -> Res {
    let e: Vec<Vec<u8>> = all.iter().map(enc).collect::<Res<_>>()?;
    for i in 0..all.len() {
        roundtrip(&all[i], &e[i])?;
        for j in 0..all.len() {
            if e[i].cmp(&e[j]) != all[i].cmp(&all[j]) && T::explain(&all[i], &all[j]).is_none() {
                fail!("{}: {:?} vs {:?} misordered: {:?} {:?}", T::name(), all[i], all[j], e[i], e[j]);
            }
        }
        ctx.add("exhaustive_pairs", all.len() as u64);
    }
    ctx.nontrivial();
    Ok(())
}

pub fn c01() -> Property {
    let simple: Vec<CaseFnPtr> = simple_types!(check_pair);
    let comp: Vec<CaseFnPtr> = composite_types!(check_pair);
    Property {
        id: "C01",
        level: "exploration",
        rule: "a case draws a key type and two values of it (boundary-biased integers, short strings over a small alphabet with NUL/0xff/surrogate-edge characters, long fields), and checks round trip from every byte source, order, injectivity and successor; non-trivial = the two values differ (prefix section: the value really starts with the prefix)",
        assumptions: &["Ord of the Rust value types is the reference order", "ordered-varint limits 128-bit varints to 124 bits"],
        sections: vec![
            section("simple", 2_000_000, 20_000_000, move |s, c| {
                let f = *s.pick(&simple);
                f(s, c)
            }),
            section("composite", 2_000_000, 20_000_000, move |s, c| {
                let f = *s.pick(&comp);
                f(s, c)
            }),
            section("prefix", 120_000, 6_000_000, prefixes),
            section("nulls", 80_000, 4_000_000, null_handling),
            section("exhaustive", 4, 4, |s, c| match s.draw(3) {
                0 => small_exhaustive(&(0..=u8::MAX).collect::<Vec<_>>(), c),
                1 => small_exhaustive(&(i8::MIN..=i8::MAX).map(VarInt).collect::<Vec<_>>(), c),
                2 => small_exhaustive(&(0..2000u16).map(VarInt).collect::<Vec<_>>(), c),
                _ => small_exhaustive(&(-1500..1500i64).map(VarInt).collect::<Vec<_>>(), c),
            }),
        ],
    }
}
