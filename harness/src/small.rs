//! P18-P21: keys, successor, identifiers, JSON values.
use crate::world::*;
use indradb::util::{self, Component};
use indradb::*;
use serde_json::Value;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::io::Cursor;
use sym::{choose, pick};
use uuid::Uuid;

fn deep() -> bool {
    sym::tier() > 0
}

/// A text of `n` symbolic bytes that form a valid ASCII identifier.
pub fn any_text(n: usize, name: &str) -> String {
    let mut b = vec![0u8; n];
    sym::bytes(&mut b, name);
    for c in &b {
        let c = *c;
        let low = c | 0x20;
        sym::assume((c == b'-') | (c == b'_') | ((c >= b'0') & (c <= b'9')) | ((low >= b'a') & (low <= b'z')));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// An identifier with symbolic text, made without the validity scan (that is
/// P20's subject); the text is valid by assumption.
pub fn any_ident(max: u32, name: &str) -> Identifier {
    let n = choose(max + 1) as usize;
    unsafe { Identifier::new_unchecked(any_text(n, name)) }
}

// ---- P18 -------------------------------------------------------------------

enum Part {
    U(Uuid),
    I(Identifier),
    N(Identifier),
}
fn key(ps: &[Part]) -> Vec<u8> {
    let cs: Vec<Component> = ps
        .iter()
        .map(|p| match p {
            Part::U(u) => Component::Uuid(*u),
            Part::I(i) => Component::Identifier(*i),
            Part::N(i) => Component::FixedLengthString(i.as_str()),
        })
        .collect();
    let k = util::build(&cs);
    let mut n = 0;
    for c in &cs {
        n += c.byte_len();
    }
    sym::check(n == k.len(), "the declared length of a key differs from its actual length");
    k
}
fn part_eq(a: &Part, b: &Part) -> bool {
    match (a, b) {
        (Part::U(a), Part::U(b)) => a == b,
        (Part::I(a), Part::I(b)) | (Part::N(a), Part::N(b)) => a.as_str() == b.as_str(),
        _ => false,
    }
}
fn decode(k: &[u8], ps: &[Part]) {
    let mut c = Cursor::new(k);
    for p in ps {
        match p {
            Part::U(u) => sym::check(util::read_uuid(&mut c).map_or(false, |x| x == *u), "a UUID does not decode to what was encoded"),
            Part::I(i) => {
                let r = unsafe { util::read_identifier(&mut c) };
                sym::check(r.map_or(false, |x| x.as_str() == i.as_str()), "an identifier does not decode to what was encoded")
            }
            Part::N(i) => {
                let r = util::read_fixed_length_string(&mut c);
                sym::check(r.map_or(false, |x| x == i.as_str()), "a name does not decode to what was encoded")
            }
        }
    }
    sym::check(c.position() as usize == k.len(), "a key has bytes that do not decode");
}
/// An identifier of `n` characters of which the first or the last is symbolic.
fn sized_ident(n: usize, name: &str) -> Identifier {
    let mut s = vec![b'x'; n];
    if n > 0 {
        let at = if choose(2) == 0 { 0 } else { n - 1 };
        s[at] = any_text(1, name).as_bytes()[0];
    }
    unsafe { Identifier::new_unchecked(String::from_utf8_unchecked(s)) }
}
/// Lengths around those at which an encoding of a length may change.
fn some_len() -> usize {
    const LENS: [usize; 10] = [0, 1, 63, 64, 127, 128, 191, 192, 254, 255];
    LENS[choose(LENS.len() as u32) as usize]
}
/// The key layouts of the column families; the flag says how many leading
/// parts make up the owner prefix that scans use.
fn layout(kind: u32, x: &str, i: &dyn Fn(&str) -> Identifier) -> (Vec<Part>, usize) {
    let u = |n: &str| Part::U(uuid(&(x.to_string() + n)));
    let i = |n: &str| i(&(x.to_string() + n));
    match kind {
        0 => (vec![u("id")], 1),
        1 => (vec![u("o"), Part::I(i("t")), u("i")], 2),
        2 => (vec![u("o"), Part::N(i("n"))], 1),
        _ => (vec![u("o"), Part::I(i("t")), u("i"), Part::N(i("n"))], 3),
    }
}
pub fn p18() {
    let kind = choose(4);
    let max = if deep() { 4 } else { 2 };
    let i = |n: &str| any_ident(max, n);
    let (a, n) = layout(kind, "a", &i);
    let (b, _) = layout(kind, "b", &i);
    laws(&a, n, &b, choose(3));
}
/// The same for identifiers of every length there is.
pub fn p18l() {
    let law = choose(3);
    let kind = choose(4);
    if law == 0 {
        let n = choose(256) as usize;
        let i = |x: &str| if x == "at" || kind == 2 { sized_ident(n, x) } else { ident("n") };
        let (a, n) = layout(kind, "a", &i);
        laws(&a, n, &[], 0);
    } else {
        let i = |x: &str| if x.ends_with('t') || kind == 2 { sized_ident(some_len(), x) } else { ident("n") };
        let (a, n) = layout(kind, "a", &i);
        let (b, _) = layout(kind, "b", &i);
        laws(&a, n, &b, law);
    }
}
fn laws(a: &[Part], n: usize, b: &[Part], law: u32) {
    let (ka, kb) = (key(a), key(b));
    match law {
        0 => decode(&ka, a),
        1 => {
            let mut same = true;
            for (x, y) in a.iter().zip(b) {
                same &= part_eq(x, y);
            }
            sym::check((ka == kb) == same, "two different keys are encoded to the same bytes");
            // the order of keys follows the order of their first UUID
            if let (Part::U(x), Part::U(y)) = (&a[0], &b[0]) {
                if x < y {
                    sym::check(ka < kb, "keys do not sort in UUID order");
                }
            }
        }
        _ => {
            // the scan prefix of one owner never matches another owner's key
            for m in 1..=n {
                let p = key(&a[..m]);
                let mut same = true;
                for (x, y) in a[..m].iter().zip(&b[..m]) {
                    same &= part_eq(x, y);
                }
                sym::check(kb.starts_with(&p) == same, "a scan prefix matches a key of another owner");
            }
        }
    }
    sym::reach("end");
}
/// P18 at the level of the database: symbolic ids, types and names.
pub fn p18e(w: World<RocksdbDatastore>) {
    let max = if deep() { 3 } else { 2 };
    e18(w, &|n| any_ident(max, n));
}
/// ... and of every length that may matter.
pub fn p18el(w: World<RocksdbDatastore>) {
    e18(w, &|n| sized_ident(some_len(), n));
}
fn e18(mut w: World<RocksdbDatastore>, i: &dyn Fn(&str) -> Identifier) {
    let (a, b) = (uuid("a"), uuid("b"));
    let t0 = ident("t");
    w.create_vertex(a, t0);
    w.create_vertex(b, t0);
    match choose(3) {
        0 => {
            let (n, m) = (i("n"), i("m"));
            w.set_vp(a, n, &val(0));
            w.set_vp(b, m, &val(1));
            w.obs_vprops();
        }
        1 => {
            let (s, t) = (i("s"), i("t"));
            let (e, f) = (Edge::new(a, s, b), Edge::new(pick(&[a, b]), t, pick(&[a, b])));
            w.create_edge(&e);
            w.create_edge(&f);
            w.set_ep(&e, t0, &val(0));
            w.set_ep(&f, t0, &val(1));
            w.obs_edges();
            w.obs_adjacent();
            w.obs_eprops();
        }
        _ => {
            let (n, m) = (i("n"), i("m"));
            w.index(n);
            w.index(m);
            w.set_vp(a, n, &val(0));
            w.set_vp(b, m, &val(0));
            w.obs_index();
        }
    }
    sym::reach("end");
}

// ---- P19 -------------------------------------------------------------------

fn num(u: &Uuid) -> u128 {
    u128::from_be_bytes(*u.as_bytes())
}
pub fn p19() {
    let u = uuid("u");
    match util::next_uuid(u) {
        Ok(n) => {
            sym::check(num(&u) != u128::MAX, "the maximum UUID has a successor");
            sym::check(num(&n) == num(&u).wrapping_add(1), "the successor is not the next UUID");
            sym::check(n > u, "the successor does not sort after the UUID");
            sym::reach("ok");
        }
        Err(e) => {
            sym::check(num(&u) == u128::MAX, "a UUID other than the maximum has no successor");
            sym::check(matches!(e, ValidationError::CannotIncrementUuid), "the wrong error for the maximum");
            sym::reach("err");
        }
    }
    // nothing lies in between
    let v = uuid("v");
    if let Ok(n) = util::next_uuid(u) {
        sym::check(!((u < v) & (v < n)), "a UUID lies between a UUID and its successor");
    }
}

// ---- P20 -------------------------------------------------------------------

/// A text of any of the shapes that matter, and whether it is an identifier.
fn any_string() -> (String, bool) {
    match choose(4) {
        0 => {
            // every ASCII text up to the bound
            let n = choose(if deep() { 5 } else { 4 }) as usize;
            let mut b = vec![0u8; n];
            sym::bytes(&mut b, "text");
            let mut ok = true;
            for c in &b {
                let c = *c;
                sym::assume(c < 128);
                let low = c | 0x20;
                ok &= (c == b'-') | (c == b'_') | ((c >= b'0') & (c <= b'9')) | ((low >= b'a') & (low <= b'z'));
            }
            (unsafe { String::from_utf8_unchecked(b) }, ok)
        }
        1 => {
            // around the length limit, one symbolic byte anywhere near the ends
            let n = 253 + choose(5) as usize;
            let mut s = vec![b'x'; n];
            let at = pick(&[0, 1, n / 2, n - 2, n - 1]);
            let c = sym::u8_("c");
            sym::assume(c < 128);
            s[at] = c;
            let low = c | 0x20;
            let ok = (c == b'-') | (c == b'_') | ((c >= b'0') & (c <= b'9')) | ((low >= b'a') & (low <= b'z'));
            (unsafe { String::from_utf8_unchecked(s) }, (n <= 255) & ok)
        }
        2 => {
            // letters and digits beyond ASCII; each counts by its bytes
            let c = pick(&["\u{e9}", "\u{4e2d}", "\u{663}", "\u{10400}"]);
            let k = choose(2) as usize;
            let n = 254 - c.len() + choose(3) as usize;
            let s = if k == 0 { c.to_string() } else { "y".repeat(n) + c };
            let ok = s.len() <= 255;
            (s, ok)
        }
        _ => {
            let c = pick(&["\u{20ac}", "\u{301}", "\u{200d}", "\u{a0}", "\u{1f600}", "\u{2014}", "\u{0}"]);
            let s = match choose(3) {
                0 => c.to_string(),
                1 => "a".to_string() + c,
                _ => c.to_string() + "a",
            };
            (s, false)
        }
    }
}
pub fn p20() {
    let (s, valid) = any_string();
    let way = choose(6);
    let got: Option<Identifier> = match way {
        0 => Identifier::new(s.clone()).ok(),
        1 => Identifier::new(s.as_str()).ok(),
        2 => s.parse::<Identifier>().ok(),
        3 => Identifier::try_from(s.clone()).ok(),
        4 => {
            // deserialization from a self-describing value
            serde_json::from_value::<Identifier>(Value::String(s.clone())).ok()
        }
        _ => {
            // deserialization from the stored index list, one string
            let mut b = (s.len() as u64).to_le_bytes().to_vec();
            b.extend_from_slice(s.as_bytes());
            bincode::deserialize::<Identifier>(&b).ok()
        }
    };
    sym::check(got.is_some() == valid, "validity of an identifier is decided wrongly");
    if let Some(i) = got {
        sym::check(i.as_str() == s, "an identifier does not keep its text");
        sym::reach("valid");
    } else {
        sym::reach("invalid");
    }
}
pub fn p20o() {
    let n = if deep() { 4 } else { 3 };
    let (a, b) = (any_text(choose(n) as usize, "a"), any_text(choose(n) as usize, "b"));
    let (i, j) = (ident(&a), ident(&b));
    sym::check((i == j) == (a == b), "identifiers are not equal exactly when their texts are");
    sym::check(i.cmp(&j) == a.cmp(&b), "identifiers are not ordered as their texts are");
    sym::check(Identifier::default().as_str().is_empty(), "the default identifier is not empty");
    sym::reach("end");
}

// ---- P21 -------------------------------------------------------------------

/// Records what is fed to a hasher: equal records give equal hashes under
/// every hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn rec(j: &Json) -> Vec<u8> {
    let mut r = Rec::default();
    j.hash(&mut r);
    r.0
}
fn any_number(x: &str) -> Value {
    match choose(3) {
        0 => Value::from(sym::u64_(x)),
        1 => Value::from(sym::u64_(x) as i64),
        _ => {
            let bits = sym::u64_(x);
            // finite
            sym::assume((bits >> 52) & 0x7ff != 0x7ff);
            match serde_json::Number::from_f64(f64::from_bits(bits)) {
                Some(n) => Value::Number(n),
                None => sym::fail("a finite number is not representable"),
            }
        }
    }
}
fn any_leaf(x: &str) -> Value {
    match choose(4) {
        0 => Value::Null,
        1 => Value::Bool(sym::bool_()),
        2 => any_number(x),
        _ => Value::String(any_text(choose(2) as usize, x)),
    }
}
fn any_value(x: &str) -> Value {
    match choose(4) {
        0 | 1 => any_leaf(x),
        2 => {
            let n = choose(3) as usize;
            Value::Array((0..n).map(|i| any_leaf(if i == 0 { x } else { "e" })).collect())
        }
        _ => {
            let n = choose(2) as usize;
            let mut m = serde_json::Map::new();
            for i in 0..n {
                m.insert(["k", "l"][i].to_string(), any_leaf(x));
            }
            Value::Object(m)
        }
    }
}
fn kind(v: &Value) -> u8 {
    match v {
        Value::Null => 0,
        Value::Bool(_) => 1,
        Value::Number(_) => 2,
        Value::String(_) => 3,
        Value::Array(_) => 4,
        Value::Object(_) => 5,
    }
}
fn pair_laws(x: &Json, y: &Json) {
    let eq = x == y;
    sym::check(eq == (y == x), "equality is not symmetric");
    if eq {
        sym::check(kind(x) == kind(y), "values of different kinds are equal");
        sym::check(rec(x) == rec(y), "equal values have different hashes");
    }
    let (c, d) = (x.partial_cmp(y), y.partial_cmp(x));
    sym::check(c == d.map(Ordering::reverse), "the ordering is not antisymmetric");
    sym::check((c == Some(Ordering::Equal)) == eq, "the ordering is not consistent with equality");
}
/// Laws of two values of any kind.
pub fn p21() {
    let (x, y) = (json(any_value("x")), json(any_value("y")));
    sym::check(x == x.clone(), "equality is not reflexive");
    pair_laws(&x, &y);
    sym::reach("end");
}
/// Numbers: all the laws, for two and three of them.
pub fn p21n() {
    let (a, b) = (any_number("x"), any_number("y"));
    let (x, y) = (json(a.clone()), json(b.clone()));
    pair_laws(&x, &y);
    let int = |v: &Value| v.as_i64().map(i128::from).or(v.as_u64().map(i128::from));
    if let (Some(i), Some(j)) = (int(&a), int(&b)) {
        sym::check(x.partial_cmp(&y) == Some(i.cmp(&j)), "integers are not ordered by their values");
    }
    sym::reach("end");
}
pub fn p21t() {
    // quick: floats around the powers of two where integers and floats
    // stop being exact in each other
    let f = |x: &str| {
        if deep() {
            return json(any_number(x));
        }
        match choose(3) {
            0 => return json(Value::from(sym::u64_(x))),
            1 => return json(Value::from(sym::u64_(x) as i64)),
            _ => {}
        }
        let e = pick(&[0u64, 1022, 1074, 1076, 1086]);
        let b = sym::u64_(x);
        sym::assume((b >> 52) & 0x7ff == e);
        match serde_json::Number::from_f64(f64::from_bits(b)) {
            Some(n) => json(Value::Number(n)),
            None => sym::fail("a finite number is not representable"),
        }
    };
    let (x, y, z) = (f("x"), f("y"), f("z"));
    if x == y && y == z {
        sym::check(x == z, "equality is not transitive");
    }
    if x < y && y < z {
        sym::check(x < z, "the ordering is not transitive");
    }
    if x == y && y < z {
        sym::check(x < z, "the ordering is not consistent with equality");
    }
    sym::reach("end");
}
/// Transitivity over mixed small values.
pub fn p21m() {
    let (x, y, z) = (json(any_mixed("x")), json(any_mixed("y")), json(any_mixed("z")));
    if x == y && y == z {
        sym::check(x == z, "equality is not transitive");
    }
    if x < y && y < z {
        sym::check(x < z, "the ordering is not transitive");
    }
    sym::reach("end");
}
fn any_mixed(x: &str) -> Value {
    let leaf = || match choose(3) {
        0 => Value::Bool(sym::bool_()),
        1 => Value::from(sym::u8_(x) as u64),
        _ => Value::String(any_text(1, x)),
    };
    match choose(3) {
        0 => leaf(),
        1 => {
            let n = choose(if deep() { 3 } else { 2 });
            Value::Array((0..n).map(|_| leaf()).collect())
        }
        _ => {
            let mut m = serde_json::Map::new();
            if choose(2) == 1 {
                m.insert(pick(&["k", "l"]).to_string(), leaf());
            }
            Value::Object(m)
        }
    }
}
