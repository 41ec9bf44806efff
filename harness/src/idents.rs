//! C24: identifiers as text and bytes.
use std::borrow::Cow;
use std::str::FromStr;

use bonsaidb_core::api::ApiName;
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::schema::{Authority, CollectionName, Name, Qualified, QualifiedName, SchemaName, ViewName};
use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::engine::*;
use crate::{ensure, ensure_eq, fail};

pub fn gen_text(s: &mut Source) -> String {
    match s.draw(6) {
        0 => s.word(4),
        1 => s.list(0, 6, 3, |s| *s.pick(&['.', '_', '-', 'a', 'Z', '0', '2', 'e', '$', ' ', '/', '\0', 'é', '\u{1f680}', '\u{7f}'])).into_iter().collect(),
        2 => format!("{}_{}", s.word(2), s.word(2)),
        3 => (*s.pick(&["", ".", "..", "_", "__", "_2e", "_5f2e", "2e", "private", "a.b", "-", "CON", "a_", "_a", "_ff"])).to_string(),
        4 => s.string(8, 4),
        _ => s.list(0, 5, 3, |s| (b' ' + s.draw(94) as u8) as char).into_iter().collect(),
    }
}
fn gen_name(s: &mut Source) -> Name {
    let t = gen_text(s);
    match s.draw(2) {
        0 => Name::from(t),
        1 => Name::new(t),
        _ => Name::from(Cow::Owned(t)),
    }
}

fn serial<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(v: &T) -> Res {
    let b: T = pot::from_slice(&pot::to_vec(v).or_fail("pot")?).or_fail("pot")?;
    ensure!(&b == v, "{v:?} read back from pot as {b:?}");
    let b: T = serde_json::from_slice(&serde_json::to_vec(v).or_fail("json")?).or_fail("json")?;
    ensure!(&b == v, "{v:?} read back from json as {b:?}");
    let b: T = bincode::deserialize(&bincode::serialize(v).or_fail("bincode")?).or_fail("bincode")?;
    ensure!(&b == v, "{v:?} read back from bincode as {b:?}");
    Ok(())
}

fn file_safe(e: &str, dots: usize) -> bool {
    e.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) && e.matches('.').count() == dots
}

fn names(s: &mut Source, ctx: &mut Ctx) -> Res {
    let n: Vec<Name> = (0..6).map(|_| gen_name(s)).collect();
    // make related pairs likely
    let mut n = n;
    for i in 3..6 {
        match s.draw(3) {
            0 => n[i] = n[i - 3].clone(),
            1 => n[i] = Name::from(n[i - 3].encoded()),
            _ => {}
        }
    }
    ctx.log(format!("{n:?}"));
    if n.iter().any(|n| n.encoded() != n.to_string()) {
        ctx.nontrivial();
    }
    for a in &n {
        let e = a.encoded();
        ensure!(file_safe(&e, 0), "{a:?} encodes to {e}");
        match Name::parse_encoded(&e) {
            Ok(b) => ensure!(&b == a, "{a:?} encodes to {e}, which parses to {b:?}"),
            Err(x) => fail!("{a:?} encodes to {e}, which does not parse: {x}"),
        }
        ensure_eq!(a.as_ref(), a.to_string(), "plain display");
        serial(a)?;
        serial(&Authority::from(a.clone()))?;
    }
    for i in 0..6 {
        for j in 0..6 {
            ensure_eq!(n[i].encoded() == n[j].encoded(), n[i] == n[j], "encodings of {:?} and {:?} are equal", n[i], n[j]);
            ensure_eq!(n[i].cmp(&n[j]), n[i].as_ref().cmp(n[j].as_ref()), "order of names");
        }
    }
    macro_rules! qualified {
        ($t:ident) => {{
            let x = $t::new(n[0].clone(), n[1].clone());
            let y = $t::new(n[3].clone(), n[4].clone());
            for v in [&x, &y, &$t::private(n[2].clone())] {
                let e = v.encoded();
                ensure!(file_safe(&e, 1), "{v:?} encodes to {e}");
                match $t::parse_encoded(&e) {
                    Ok(b) => ensure!(&b == v, "{v:?} encodes to {e}, which parses to {b:?}"),
                    Err(x) => fail!("{v:?} encodes to {e}, which does not parse: {x}"),
                }
                serial(v)?;
            }
            ensure_eq!(x.encoded() == y.encoded(), x == y, "{:?} and {:?} encode alike", x, y);
        }};
    }
    qualified!(QualifiedName);
    qualified!(SchemaName);
    qualified!(CollectionName);
    qualified!(ApiName);
    for (e, v) in [(CollectionName::new(n[0].clone(), n[1].clone()).encoded(), CollectionName::new(n[0].clone(), n[1].clone()))] {
        ensure_eq!(CollectionName::from_str(&e).or_fail("from_str")?, v, "FromStr");
        ensure_eq!(SchemaName::from_str(&e).or_fail("from_str")?, SchemaName::from(v), "FromStr");
    }
    let view = |a: usize| ViewName { collection: CollectionName::new(n[a].clone(), n[a + 1].clone()), name: n[a + 2].clone() };
    let (x, y) = (view(0), view(3));
    for v in [&x, &y] {
        let e = format!("{v:#}");
        ensure!(file_safe(&e, 2), "{v:?} encodes to {e}");
        match ViewName::from_str(&e) {
            Ok(b) => ensure!(&b == v, "{v:?} encodes to {e}, which parses to {b:?}"),
            Err(x) => fail!("{v:?} encodes to {e}, which does not parse: {x}"),
        }
        serial(v)?;
    }
    ensure_eq!(format!("{x:#}") == format!("{y:#}"), x == y, "{:?} and {:?} encode alike", x, y);
    Ok(())
}

fn gen_id_bytes(s: &mut Source) -> Vec<u8> {
    match s.draw(8) {
        0 => s.bytes(6, 3),
        1 => s.interesting_u64(u64::MAX).to_be_bytes().to_vec(),
        2 => (s.interesting_u64(u64::MAX) as u32).to_be_bytes().to_vec(),
        3 => gen_text(s).into_bytes(),
        4 => {
            // text that looks like a formatted id
            let z = s.draw(0x11);
            let h: String = s.list(0, 5, 3, |s| *s.pick(&['0', '1', 'f', 'a', 'g', '$'])).into_iter().collect();
            if z == 0 { format!("${h}") } else { format!("{z:x}${h}") }.into_bytes()
        }
        5 => {
            let mut v = vec![0u8; s.draw(20) as usize];
            v.extend(s.bytes(4, 2));
            v
        }
        6 => {
            let n = if s.chance(1, 100) { *s.pick(&[4095usize, 65_534, 65_535]) } else { *s.pick(&[15usize, 16, 17, 63, 255, 256]) };
            let mut v = vec![*s.pick(&[0u8, 1, b'a', 0xff]); n];
            if s.bool() {
                let i = s.below(n);
                v[i] = s.draw(255) as u8;
            }
            v
        }
        7 => s.list(0, 8, 4, |s| b' ' + s.draw(95) as u8),
        _ => s.list(0, 20, 6, |s| s.draw(255) as u8),
    }
}

fn ids(s: &mut Source, ctx: &mut Ctx) -> Res {
    let a = gen_id_bytes(s);
    let b = match s.draw(3) {
        0 => DocumentId::try_from(&a[..]).or_fail("id")?.to_string().into_bytes(),
        _ => gen_id_bytes(s),
    };
    ctx.log(format!("{a:02x?} {b:02x?}"));
    let (Ok(x), Ok(y)) = (DocumentId::try_from(&a[..]), DocumentId::try_from(&b[..])) else {
        ensure!(a.len() > DocumentId::MAX_LENGTH || b.len() > DocumentId::MAX_LENGTH, "valid id refused");
        return Ok(());
    };
    let texts = [x.to_string(), y.to_string()];
    if texts.iter().any(|t| t.contains('$')) {
        ctx.nontrivial();
    }
    for (id, (t, bytes)) in [&x, &y].iter().zip(texts.iter().zip([&a, &b])) {
        ensure_eq!(&id[..], &bytes[..], "id bytes");
        match catch(|| DocumentId::from_str(t)) {
            Ok(Ok(p)) => ensure!(&&p == id, "{bytes:02x?} prints as {t:?}, which parses to {:02x?}", &p[..]),
            Ok(Err(e)) => fail!("{bytes:02x?} prints as {t:?}, which does not parse: {e}"),
            Err(p) => fail!("parsing {t:?} panicked: {p}"),
        }
        serial(*id)?;
    }
    ensure_eq!(texts[0] == texts[1], x == y, "ids {a:02x?} and {b:02x?} print alike ({texts:?})");
    ensure_eq!(x.cmp(&y), a.cmp(&b), "order of ids");
    // ids from keys
    let n = s.interesting_u64(u64::MAX);
    ensure_eq!(DocumentId::from_u64(n).deserialize::<u64>().or_fail("u64")?, n, "u64 id");
    ensure_eq!(DocumentId::new(&n).or_fail("u64")?, DocumentId::from_u64(n), "from_u64");
    ensure_eq!(DocumentId::from_u32(n as u32).deserialize::<u32>().or_fail("u32")?, n as u32, "u32 id");
    let t = gen_text(s);
    ensure_eq!(DocumentId::new(t.as_str()).or_fail("str")?.deserialize::<String>().or_fail("str")?, t, "string id");
    ensure_eq!(DocumentId::new(&(t.clone(), n)).or_fail("tuple")?.deserialize::<(String, u64)>().or_fail("tuple")?, (t, n), "tuple id");
    ensure_eq!(&x.deserialize::<Vec<u8>>().or_fail("bytes")?, &a, "byte id");
    Ok(())
}

fn limits(s: &mut Source, ctx: &mut Ctx) -> Res {
    let max = DocumentId::MAX_LENGTH;
    let n = max - 2 + s.draw(6) as usize;
    let fill = *s.pick(&[0u8, 1, 0xff, b'a', b'$']);
    let bytes = vec![fill; n];
    let ok = n <= max;
    if !ok {
        ctx.nontrivial();
    }
    ctx.log(format!("{n} bytes of {fill:02x}"));
    ensure_eq!(DocumentId::try_from(&bytes[..]).is_ok(), ok, "try_from of {n} bytes");
    ensure_eq!(DocumentId::try_from(Cow::Borrowed(&bytes[..])).is_ok(), ok, "try_from Cow of {n} bytes");
    ensure_eq!(DocumentId::new(&bytes).is_ok(), ok, "new from {n} bytes");
    // text forms
    let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
    let plain: String = bytes.iter().map(|_| 'a').collect();
    let mut forms = vec![(plain, ok), (format!("${hex}"), ok)];
    forms.push((format!("{n:x}$"), ok));
    let z = s.draw(3).max(1) as usize;
    forms.push((format!("{z:x}${hex}"), n + z <= max));
    for (t, want) in forms {
        match catch(|| DocumentId::from_str(&t)) {
            Ok(r) => {
                ensure_eq!(r.is_ok(), want, "text {} for an id of {n} bytes accepted", short(&t));
                if let Ok(id) = r {
                    ensure!(id.len() <= max, "parsed id has {} bytes", id.len());
                }
            }
            Err(p) => fail!("parsing {} panicked: {p}", short(&t)),
        }
    }
    // serialised forms
    let raw = bonsaidb_core::arc_bytes::serde::Bytes::from(bytes.clone());
    for f in 0..2 {
        let r = if f == 0 {
            pot::from_slice::<DocumentId>(&pot::to_vec(&raw).or_fail("pot")?).ok()
        } else {
            bincode::deserialize::<DocumentId>(&bincode::serialize(&raw).or_fail("bincode")?).ok()
        };
        ensure_eq!(r.is_some(), ok, "serialised id of {n} bytes accepted (format {f})");
        if let Some(r) = r {
            ensure_eq!(&r[..], &bytes[..], "deserialised id");
        }
    }
    Ok(())
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        level: "exploration",
        rule: "a case draws six related names (separators, escapes, digits that look like escapes, unicode) or two ids (printable, text that looks like a formatted id, leading zeros, inline-size and maximum lengths), writes them as text, pot, json and bincode, and reads them back; non-trivial = some name needs escaping / some id prints in hexadecimal form / an id beyond the limit",
        assumptions: &["encoded() (the alternate Display form) is the parseable text of names, as its documentation says"],
        sections: vec![
            section("names", 600_000, 8_000_000, names),
            section("ids", 1_200_000, 10_000_000, ids),
            section("limits", 1_500, 20_000, limits),
        ],
    }
}
