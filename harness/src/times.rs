//! C27: timestamps and durations.
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use bonsaidb_core::key::time::limited::{
    self, AnyTimestamp, BonsaiEpoch, LimitedResolutionDuration, LimitedResolutionTimestamp,
    SignedDuration, TimeEpoch, TimeResolution, UnixEpoch,
};
use bonsaidb_core::key::{ByteSource, Key, KeyEncoding};
use bonsaidb_core::keyvalue::Timestamp;

use crate::engine::*;
use crate::{ensure, ensure_eq, fail};

const NS: i128 = 1_000_000_000;

trait Unit: TimeResolution + 'static {
    const NANOS: i128;
    const MIN: i128;
    const MAX: i128;
    fn rep(v: i128) -> Self::Representation;
    fn val(r: Self::Representation) -> i128;
}
macro_rules! unit {
    ($($t:ident $r:ty = $n:expr),*) => {$(impl Unit for limited::$t {
        const NANOS: i128 = $n;
        const MIN: i128 = <$r>::MIN as i128;
        const MAX: i128 = <$r>::MAX as i128;
        fn rep(v: i128) -> $r { <$r>::try_from(v).expect("HARNESS: rep") }
        fn val(r: $r) -> i128 { i128::from(r) }
    })*};
}
unit!(
    Nanoseconds i64 = 1,
    Microseconds i64 = 1_000,
    Milliseconds i64 = 1_000_000,
    Seconds i64 = NS,
    Minutes i32 = 60 * NS,
    Hours i32 = 3600 * NS,
    Days i32 = 86_400 * NS,
    Weeks i32 = 7 * 86_400 * NS
);

fn nanos_of(d: Duration) -> i128 {
    i128::from(d.as_secs()) * NS + i128::from(d.subsec_nanos())
}
fn signed_nanos(d: SignedDuration) -> i128 {
    match d {
        SignedDuration::Positive(d) => nanos_of(d),
        SignedDuration::Negative(d) => -nanos_of(d),
    }
}
fn to_duration(n: i128) -> Option<Duration> {
    let secs = u64::try_from(n / NS).ok()?;
    Some(Duration::new(secs, (n % NS) as u32))
}
fn gen_secs(s: &mut Source) -> u64 {
    match s.draw(4) {
        0 => s.draw(200),
        1 => {
            // around the limits of the 32- and 64-bit representations
            let unit = *s.pick(&[1u64, 60, 3600, 86_400, 604_800]);
            let base = *s.pick(&[1u64 << 31, 1 << 32, (1 << 31) - 1, 100, 1_931_747_507]);
            (base.saturating_mul(unit)).saturating_add(s.draw(unit * 2)).saturating_sub(s.draw(unit * 2))
        }
        2 => 1_931_747_507u64.wrapping_add(s.draw(4)).wrapping_sub(s.draw(4)),
        3 => s.interesting_u64(u64::MAX),
        _ => {
            let v = *s.pick(&[9_223_372_036u64, 9_223_372_036_854, 9_223_372_036_854_775, 9_223_372_036_854_775_807]);
            v.wrapping_add(s.draw(3)).wrapping_sub(s.draw(3))
        }
    }
}
fn gen_nanos(s: &mut Source) -> u32 {
    match s.draw(5) {
        0 => 0,
        1 => s.draw(999) as u32 * 1_000_000,
        2 => s.draw(999_999) as u32 * 1_000,
        3 => 999_999_999 - s.draw(1001) as u32,
        4 => s.draw(1001) as u32,
        _ => s.draw(999_999_999) as u32,
    }
}
pub fn gen_duration(s: &mut Source) -> Duration {
    Duration::new(gen_secs(s), gen_nanos(s))
}
fn gen_rep<U: Unit>(s: &mut Source) -> i128 {
    match s.draw(4) {
        0 => s.irange(-5, 5) as i128,
        1 => U::MAX - s.draw(3) as i128,
        2 => U::MIN + s.draw(3) as i128,
        3 => {
            let v = i128::from(s.interesting_u64(U::MAX as u64));
            if s.bool() { -v } else { v }
        }
        _ => i128::from(s.irange(-40_000_000_000, 40_000_000_000)).clamp(U::MIN, U::MAX),
    }
}

fn durations<U: Unit>(s: &mut Source, ctx: &mut Ctx) -> Res {
    let d = gen_duration(s);
    let neg = s.bool();
    let sd = if neg { SignedDuration::Negative(d) } else { SignedDuration::Positive(d) };
    let n = signed_nanos(sd);
    ctx.log(format!("{}: {}{d:?}", U::FORMAT_SUFFIX, if neg { "-" } else { "" }));
    let want = n.div_euclid(U::NANOS); // truncated to the resolution
    if n % U::NANOS != 0 || want < U::MIN || want > U::MAX {
        ctx.nontrivial();
    }
    let got = catch(|| LimitedResolutionDuration::<U>::try_from(sd));
    match got {
        Err(p) => fail!("converting {sd:?} to {} panicked: {p}", U::FORMAT_SUFFIX),
        Ok(Err(_)) => ensure!(
            !(U::MIN..=U::MAX).contains(&want),
            "{sd:?} is {want}{} but was reported unrepresentable", U::FORMAT_SUFFIX
        ),
        Ok(Ok(v)) => {
            ensure_eq!(U::val(v.representation()), want, "{sd:?} in {}", U::FORMAT_SUFFIX);
            if n >= 0 {
                let u = LimitedResolutionDuration::<U>::try_from(d).or_fail("unsigned")?;
                ensure!(u == v, "Duration and SignedDuration disagree for {d:?}");
            }
        }
    }
    // Every representation converts back exactly, if at all.
    let r = gen_rep::<U>(s);
    ctx.log(format!("rep {r}"));
    let v = LimitedResolutionDuration::<U>::new(U::rep(r));
    ensure_eq!(v.to_string(), format!("{r}{}", U::FORMAT_SUFFIX), "display");
    match catch(|| SignedDuration::try_from(v)) {
        Err(p) => fail!("{v} to SignedDuration panicked: {p}"),
        Ok(Err(_)) => ensure!(to_duration((r * U::NANOS).abs()).is_none(), "{v} reported unrepresentable"),
        Ok(Ok(sd)) => {
            ensure_eq!(signed_nanos(sd), r * U::NANOS, "{v} as a signed duration");
            match LimitedResolutionDuration::<U>::try_from(sd) {
                Ok(b) => ensure!(b == v, "{v} converted to {sd:?} and back is {b}"),
                Err(e) => fail!("{v} converted to {sd:?} does not convert back: {e}"),
            }
            match Duration::try_from(v) {
                Ok(d) => ensure_eq!(nanos_of(d), r * U::NANOS, "{v} as a duration"),
                Err(_) => ensure!(r < 0, "{v} reported unrepresentable as Duration"),
            }
        }
    }
    for f in 0..2 {
        let back: LimitedResolutionDuration<U> = if f == 0 {
            pot::from_slice(&pot::to_vec(&v).or_fail("pot")?).or_fail("pot")?
        } else {
            serde_json::from_str(&serde_json::to_string(&v).or_fail("json")?).or_fail("json")?
        };
        ensure!(back == v, "{v} serialised and read back is {back}");
    }
    // order
    let r2 = gen_rep::<U>(s);
    let v2 = LimitedResolutionDuration::<U>::new(U::rep(r2));
    ensure_eq!(v.cmp(&v2), r.cmp(&r2), "order of {v} and {v2}");
    if let (Ok(a), Ok(b)) = (SignedDuration::try_from(v), SignedDuration::try_from(v2)) {
        ensure_eq!(signed_nanos(a).cmp(&signed_nanos(b)), r.cmp(&r2), "order of {a:?} and {b:?}");
    }
    // sums
    let mut terms = vec![];
    while s.more(3, terms.len(), 5) {
        terms.push(gen_rep::<U>(s));
    }
    ctx.log(format!("sum {terms:?}"));
    let exact: i128 = terms.iter().sum();
    // An intermediate result beyond what a Duration holds may be an overflow.
    let mut acc = 0i128;
    let mut intermediate = false;
    for t in &terms {
        acc += t;
        intermediate |= to_duration((acc * U::NANOS).abs()).is_none();
    }
    let it = || terms.iter().map(|t| LimitedResolutionDuration::<U>::new(U::rep(*t)));
    let sum: Option<LimitedResolutionDuration<U>> = match catch(|| it().sum::<Option<_>>()) {
        Ok(v) => v,
        Err(p) => fail!("sum of {terms:?}{} panicked: {p}", U::FORMAT_SUFFIX),
    };
    match sum {
        Some(v) => ensure_eq!(U::val(v.representation()), exact, "sum of {terms:?}{}", U::FORMAT_SUFFIX),
        // Intermediate results may be unrepresentable only as Durations.
        None => ensure!(
            intermediate || !(U::MIN..=U::MAX).contains(&exact),
            "sum of {terms:?}{} reported as overflow but it is {exact}", U::FORMAT_SUFFIX
        ),
    }
    if !intermediate && (U::MIN..=U::MAX).contains(&exact) {
        match catch(|| it().sum::<LimitedResolutionDuration<U>>()) {
            Ok(v) => ensure_eq!(U::val(v.representation()), exact, "sum"),
            Err(p) => fail!("sum of {terms:?}{} panicked: {p}", U::FORMAT_SUFFIX),
        }
    }
    Ok(())
}

fn system_time(n: i128) -> Option<SystemTime> {
    if n >= 0 {
        UNIX_EPOCH.checked_add(to_duration(n)?)
    } else {
        UNIX_EPOCH.checked_sub(to_duration(-n)?)
    }
}

fn timestamps<U: Unit, E: TimeEpoch + 'static>(s: &mut Source, ctx: &mut Ctx) -> Res {
    let epoch = nanos_of(E::epoch_offset());
    // time -> limited
    let n = {
        let d = nanos_of(gen_duration(s));
        if s.chance(1, 4) { -d } else { d }
    };
    if let Some(t) = system_time(n) {
        ctx.log(format!("{} {}: time {n}ns", E::name(), U::FORMAT_SUFFIX));
        let want = (n - epoch).div_euclid(U::NANOS);
        match catch(|| LimitedResolutionTimestamp::<U, E>::try_from(t)) {
            Err(p) => fail!("converting {n}ns panicked: {p}"),
            Ok(Err(_)) => ensure!(!(U::MIN..=U::MAX).contains(&want), "{n}ns reported unrepresentable in {}", U::FORMAT_SUFFIX),
            Ok(Ok(v)) => {
                ensure_eq!(U::val(v.representation()), want, "{n}ns in {} since {}", U::FORMAT_SUFFIX, E::name());
                ctx.nontrivial();
            }
        }
    }
    // limited -> time -> limited; text
    let r = gen_rep::<U>(s);
    ctx.log(format!("{} {}: rep {r}", E::name(), U::FORMAT_SUFFIX));
    let v = LimitedResolutionTimestamp::<U, E>::from_representation(U::rep(r));
    let exact = r * U::NANOS + epoch;
    match catch(|| SystemTime::try_from(v)) {
        Err(p) => fail!("{r}{} to SystemTime panicked: {p}", U::FORMAT_SUFFIX),
        Ok(Err(_)) => ensure!(system_time(exact).is_none(), "{r}{} reported unrepresentable", U::FORMAT_SUFFIX),
        Ok(Ok(t)) => {
            ensure_eq!(Some(t), system_time(exact), "{r}{} as SystemTime", U::FORMAT_SUFFIX);
            let back = LimitedResolutionTimestamp::<U, E>::try_from(t).or_fail("back from SystemTime")?;
            ensure_eq!(U::val(back.representation()), r, "SystemTime round trip");
            ctx.count("systemtime_roundtrips");
        }
    }
    match v.duration_since_unix_epoch() {
        Ok(d) => ensure_eq!(nanos_of(d), exact, "duration since unix epoch"),
        Err(_) => ensure!(exact < 0 || to_duration(exact).is_none(), "duration since unix epoch of {r}{} refused", U::FORMAT_SUFFIX),
    }
    if let Ok(text) = v.to_timestamp_string() {
        ensure!(exact >= 0, "{r}{} precedes the unix epoch but printed as {text}", U::FORMAT_SUFFIX);
        ensure_eq!(v.to_string(), text, "Display");
        let (a, b) = text.split_once('.').unwrap_or((&text, ""));
        let frac = if b.is_empty() { 0 } else { b.parse::<i128>().unwrap_or(-1) * 10i128.pow(9 - b.len() as u32) };
        ensure_eq!(a.parse::<i128>().unwrap_or(-1) * NS + frac, exact, "value of {text}");
        match text.parse::<LimitedResolutionTimestamp<U, E>>() {
            Ok(p) => ensure_eq!(U::val(p.representation()), r, "{text} parsed"),
            Err(e) => fail!("{r}{} printed as {text}, which does not parse: {e}", U::FORMAT_SUFFIX),
        }
        ctx.count("text_roundtrips");
    } else {
        ensure!(exact < 0 || to_duration(exact).is_none(), "{r}{} not printable", U::FORMAT_SUFFIX);
    }
    let back: LimitedResolutionTimestamp<U, E> = pot::from_slice(&pot::to_vec(&v).or_fail("pot")?).or_fail("pot")?;
    ensure_eq!(U::val(back.representation()), r, "pot");
    let d: LimitedResolutionDuration<U> = v.into();
    ensure_eq!(U::val(d.representation()), r, "as duration");
    // differences
    let r2 = if s.bool() { (r + i128::from(s.irange(-3, 3))).clamp(U::MIN, U::MAX) } else { gen_rep::<U>(s) };
    let w = LimitedResolutionTimestamp::<U, E>::from_representation(U::rep(r2));
    ctx.log(format!("other {r2}"));
    ensure_eq!(v.cmp(&w), r.cmp(&r2), "order");
    let e2 = r2 * U::NANOS + epoch;
    let ok = |n: i128| n >= 0 && to_duration(n).is_some();
    if ok(exact) && ok(e2) {
        ensure_eq!(
            v.duration_since(&w).or_fail("duration_since")?.map(nanos_of),
            (exact >= e2).then_some(exact - e2),
            "duration_since {r} {r2}"
        );
        ensure_eq!(nanos_of(v.duration_between(&w).or_fail("duration_between")?), (exact - e2).abs(), "duration_between");
    } else {
        ensure!(v.duration_since(&w).is_err() && v.duration_between(&w).is_err(), "difference with a time before the epoch");
    }
    // parsing text
    let secs = gen_secs(s);
    let digits = s.draw(9) as usize;
    let frac: String = (0..digits).map(|_| (b'0' + s.draw(9) as u8) as char).collect();
    let text = if digits == 0 { secs.to_string() } else { format!("{secs}.{frac}") };
    ctx.log(format!("parse {text}"));
    let n = i128::from(secs) * NS + if digits == 0 { 0 } else { frac.parse::<i128>().unwrap() * 10i128.pow(9 - digits as u32) };
    let want = (n - epoch).div_euclid(U::NANOS);
    match catch(|| text.parse::<LimitedResolutionTimestamp<U, E>>()) {
        Err(p) => fail!("parsing {text} panicked: {p}"),
        Ok(Err(_)) => ensure!(!(U::MIN..=U::MAX).contains(&want), "{text} does not parse as {}", U::FORMAT_SUFFIX),
        Ok(Ok(v)) => ensure_eq!(U::val(v.representation()), want, "{text} parsed in {}", U::FORMAT_SUFFIX),
    }
    Ok(())
}

fn plain(s: &mut Source, ctx: &mut Ctx) -> Res {
    // kv timestamps
    let t = Timestamp { seconds: gen_secs(s), nanos: gen_nanos(s) };
    let d = gen_duration(s);
    ctx.log(format!("{t:?} + {d:?}"));
    let tn = |t: Timestamp| i128::from(t.seconds) * NS + i128::from(t.nanos);
    let exact = tn(t) + nanos_of(d);
    match catch(|| t + d) {
        Err(p) => fail!("{t:?} + {d:?} panicked: {p}"),
        Ok(sum) => {
            ensure!(sum.nanos < 1_000_000_000, "{t:?} + {d:?} = {sum:?} is not normalised");
            ensure_eq!(tn(sum), exact.min(tn(Timestamp::MAX)), "{t:?} + {d:?}");
        }
    }
    if t.nanos + d.subsec_nanos() >= 1_000_000_000 {
        ctx.nontrivial();
    }
    let u = if s.bool() { Timestamp { seconds: t.seconds, nanos: gen_nanos(s) } } else { Timestamp { seconds: gen_secs(s), nanos: gen_nanos(s) } };
    ensure_eq!((t - u).map(nanos_of), (tn(t) >= tn(u)).then_some(tn(t) - tn(u)), "{t:?} - {u:?}");
    ensure_eq!(t.cmp(&u), tn(t).cmp(&tn(u)), "order of timestamps");
    ensure_eq!(nanos_of(Duration::from(t)), tn(t), "as duration");
    let b = t.as_ord_bytes().or_fail("bytes")?.into_owned();
    ensure_eq!(Timestamp::from_ord_bytes(ByteSource::Borrowed(&b)).or_fail("decode")?, t, "bytes round trip");
    ensure_eq!(b.cmp(&u.as_ord_bytes().or_fail("bytes")?.into_owned()), t.cmp(&u), "byte order of {t:?} {u:?}");
    let back: Timestamp = pot::from_slice(&pot::to_vec(&t).or_fail("pot")?).or_fail("pot")?;
    ensure_eq!(back, t, "pot");
    if let Some(st) = system_time(tn(t)) {
        ensure_eq!(Timestamp::from(st), t, "from SystemTime");
    }
    // signed durations
    let a = gen_duration(s);
    let b = if s.chance(1, 4) { a } else { gen_duration(s) };
    let mk = |neg, d| if neg { SignedDuration::Negative(d) } else { SignedDuration::Positive(d) };
    let (x, y) = (mk(s.bool(), a), mk(s.bool(), b));
    ctx.log(format!("{x:?} + {y:?}"));
    let exact = signed_nanos(x) + signed_nanos(y);
    match x.checked_add(y) {
        Some(r) => ensure_eq!(signed_nanos(r), exact, "{x:?} + {y:?}"),
        None => ensure!(to_duration(exact.abs()).is_none(), "{x:?} + {y:?} reported as overflow"),
    }
    let mut terms = vec![];
    while s.more(3, terms.len(), 4) {
        terms.push(mk(s.bool(), Duration::new(s.draw(1 << 40), gen_nanos(s))));
    }
    let exact: i128 = terms.iter().map(|t| signed_nanos(*t)).sum();
    match catch(|| (terms.iter().copied().sum::<Option<SignedDuration>>(), terms.iter().copied().sum::<SignedDuration>())) {
        Ok((Some(a), b)) => {
            ensure_eq!(signed_nanos(a), exact, "sum {terms:?}");
            ensure_eq!(signed_nanos(b), exact, "sum {terms:?}");
        }
        Ok((None, _)) => fail!("sum of {terms:?} reported as overflow"),
        Err(p) => fail!("sum of {terms:?} panicked: {p}"),
    }
    // times before the unix epoch are refused, not crashed on
    if let Some(st) = system_time(-nanos_of(Duration::new(s.draw(1 << 33), gen_nanos(s))) - 1) {
        match catch(|| st.as_ord_bytes().map(|b| b.into_owned())) {
            Ok(r) => ensure!(r.is_err(), "{st:?} encoded as {r:?}"),
            Err(p) => fail!("encoding {st:?} as a key panicked: {p}"),
        }
        let now = limited::LimitedResolutionTimestamp::<limited::Seconds, UnixEpoch>::from_representation(5);
        match catch(|| now.duration_since(&st)) {
            Ok(_) => {}
            Err(p) => fail!("duration since {st:?} panicked: {p}"),
        }
    }
    Ok(())
}

pub fn c27() -> Property {
    type F = fn(&mut Source, &mut Ctx) -> Res;
    macro_rules! all {
        ($f:ident) => {
            vec![$f::<limited::Nanoseconds> as F, $f::<limited::Microseconds>, $f::<limited::Milliseconds>, $f::<limited::Seconds>,
                $f::<limited::Minutes>, $f::<limited::Hours>, $f::<limited::Days>, $f::<limited::Weeks>]
        };
        ($f:ident, $e:ty) => {
            vec![$f::<limited::Nanoseconds, $e> as F, $f::<limited::Microseconds, $e>, $f::<limited::Milliseconds, $e>, $f::<limited::Seconds, $e>,
                $f::<limited::Minutes, $e>, $f::<limited::Hours, $e>, $f::<limited::Days, $e>, $f::<limited::Weeks, $e>]
        };
    }
    let d: Vec<F> = all!(durations);
    let mut t: Vec<F> = all!(timestamps, UnixEpoch);
    t.extend(all!(timestamps, BonsaiEpoch));
    Property {
        id: "C27",
        level: "exploration",
        rule: "a case draws a resolution, an epoch and durations/times/representations biased to unit multiples, representation limits and sub-second edges, and compares with exact 128-bit integer arithmetic; non-trivial = inexact or out of range at that resolution (durations), representable time (timestamps), nanosecond carry (plain)",
        assumptions: &["conversion rounds towards negative infinity (documented as truncating; what the second and finer resolutions implement)", "SystemTime range of this platform"],
        sections: vec![
            section("durations", 4_000_000, 30_000_000, move |s, c| { let f = *s.pick(&d); f(s, c) }),
            section("timestamps", 4_000_000, 30_000_000, move |s, c| { let f = *s.pick(&t); f(s, c) }),
            section("plain", 2_000_000, 15_000_000, plain),
        ],
    }
}
