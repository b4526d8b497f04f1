//! C16: serialization round-trips and malformed input is rejected cleanly.

use mdarray::{Array, Const, ConstShape, Dim, Layout, Shape, Slice, Tensor, View};
use serde::de::{DeserializeOwned, DeserializeSeed, IntoDeserializer, SeqAccess, Visitor};
use serde::{forward_to_deserialize_any, Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};
use vh::chain::*;
use vh::track::{self, Tr, Track};
use vh::*;

vh::check_main!("C16", run);

type U = usize;

/// Nested JSON value of the elements.
fn nested(dims: &[usize], vals: &[Value]) -> Value {
    match dims {
        [] => vals[0].clone(),
        [d, rest @ ..] => {
            let n = product(rest);
            Value::Array((0..*d).map(|i| nested(rest, &vals[i * n..i * n + n])).collect())
        }
    }
}

/// Sizes of the constant-sized dimensions in the type.
fn consts<S: Shape>() -> Vec<Option<usize>> {
    let mut v = Vec::new();
    if S::RANK != Some(0) {
        v.push(<S::Head as Dim>::SIZE);
        v.extend(consts::<S::Tail>());
    }
    v
}

/// What the nested value contains: dimensions (`None` if there is nothing to tell) and elements, or
/// an error if it is not an array with these constant dimensions.
fn parse<E: DeserializeOwned>(v: &Value, k: &[Option<usize>], out: &mut Vec<E>) -> Result<Vec<Option<usize>>, String> {
    match k {
        [] => {
            out.push(serde_json::from_value(v.clone()).map_err(|e| e.to_string())?);
            Ok(Vec::new())
        }
        [head, rest @ ..] => {
            let a = v.as_array().ok_or("too shallow")?;
            let mut dims: Option<Vec<Option<usize>>> = None;
            for x in a {
                let d = parse::<E>(x, rest, out)?;
                match &mut dims {
                    None => dims = Some(d),
                    Some(e) => {
                        if *e != d {
                            return Err(format!("ragged: {e:?} and {d:?}"));
                        }
                    }
                }
            }
            if head.is_some_and(|n| n != a.len()) {
                return Err("constant size".into());
            }
            let mut r = vec![Some(a.len())];
            r.extend(dims.unwrap_or_else(|| rest.to_vec()));
            Ok(r)
        }
    }
}

/// Serde data model of a nested value, with arbitrary size hints.
#[derive(Clone, Copy, Debug)]
enum Hint {
    None,
    Exact,
    Less,
    Huge,
}

struct Hinted<'a>(&'a Value, Hint);

#[derive(Debug)]
struct Oops(String);

impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Oops {}

impl serde::de::Error for Oops {
    fn custom<T: std::fmt::Display>(x: T) -> Self {
        Oops(x.to_string())
    }
}

impl<'de> Deserializer<'de> for Hinted<'_> {
    type Error = Oops;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        match self.0 {
            Value::Array(a) => v.visit_seq(HintedSeq(a.iter(), self.1)),
            Value::Number(n) if n.is_u64() => v.visit_u64(n.as_u64().unwrap()),
            Value::Number(n) if n.is_i64() => v.visit_i64(n.as_i64().unwrap()),
            Value::String(s) => v.visit_str(s),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Object(m) => {
                v.visit_map(serde::de::value::MapDeserializer::new(m.keys().map(|k| (k.as_str(), 0u8))))
            }
            _ => v.visit_unit(),
        }
    }

    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct HintedSeq<'a>(std::slice::Iter<'a, Value>, Hint);

impl<'de> SeqAccess<'de> for HintedSeq<'_> {
    type Error = Oops;

    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Oops> {
        match self.0.next() {
            Some(x) => seed.deserialize(Hinted(x, self.1)).map(Some),
            None => Ok(None),
        }
    }

    fn size_hint(&self) -> Option<usize> {
        match self.1 {
            Hint::None => None,
            Hint::Exact => Some(self.0.len()),
            Hint::Less => Some(self.0.len() / 2),
            Hint::Huge => Some(usize::MAX / 2),
        }
    }
}

trait Elem: Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + 'static {
    const NAME: &'static str;
    fn mk(k: u64) -> Self;
}

macro_rules! elem {
    ($($t:ty, $n:expr, $k:ident => $e:expr;)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = $n;
            fn mk($k: u64) -> Self { $e }
        }
    )*};
}

elem! {
    u64, "u64", k => k;
    u8, "u8", k => k as u8;
    i32, "i32", k => -(k as i32);
    String, "String", k => format!("s{k}");
    Vec<u8>, "Vec<u8>", k => vec![k as u8; (k % 3) as usize];
    Option<u16>, "Option<u16>", k => (k % 4 != 0).then_some(k as u16);
    (u8, bool), "(u8, bool)", k => (k as u8, k % 2 == 0);
    T16, "Tr", k => T16(Tr::mk(k as u32));
}

/// Element with life cycle monitoring.
#[derive(Clone, PartialEq, Debug)]
struct T16(Tr);

impl Serialize for T16 {
    fn serialize<R: Serializer>(&self, r: R) -> Result<R::Ok, R::Error> {
        r.serialize_u32(self.0.val() as u32)
    }
}

impl<'a> Deserialize<'a> for T16 {
    fn deserialize<R: Deserializer<'a>>(r: R) -> Result<Self, R::Error> {
        Ok(T16(Tr::mk(u32::deserialize(r)?)))
    }
}

/// All serialized forms of the array against the nested value.
fn ser<T: Elem, X: Serialize + ?Sized>(c: &mut Case, x: &X, dims: &[usize], vals: &[T]) {
    let want = nested(dims, &vals.iter().map(|x| json!(x)).collect::<Vec<_>>());
    let text = serde_json::to_string(x).expect("serialize");
    assert!(text == want.to_string(), "serialized {text}, expected {want}");
    assert!(serde_json::to_value(x).expect("serialize") == want);
    let pretty = serde_json::to_string_pretty(x).unwrap();
    assert!(pretty == serde_json::to_string_pretty(&want).unwrap());
    // Length-prefixed binary format.
    let mut bytes = Vec::new();
    fn enc<T: Elem>(dims: &[usize], vals: &[T], out: &mut Vec<u8>) {
        match dims {
            [] => out.extend(bincode::serialize(&vals[0]).unwrap()),
            [d, rest @ ..] => {
                let n = product(rest);
                out.extend((*d as u64).to_le_bytes());
                for i in 0..*d {
                    enc(rest, &vals[i * n..i * n + n], out);
                }
            }
        }
    }
    enc(dims, vals, &mut bytes);
    assert!(bincode::serialize(x).expect("serialize") == bytes, "length-prefixed form differs for {dims:?}");
    assert!(bincode::serialized_size(x).unwrap() == bytes.len() as u64);
    c.ev("serialized forms compared", 5);
    // A destination that fails in the middle is reported.
    if text.len() > 1 {
        let at = c.rng.below(text.len());
        struct W(usize);
        impl std::io::Write for W {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if b.len() > self.0 {
                    return Err(std::io::Error::other("full"));
                }
                self.0 -= b.len();
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        assert!(serde_json::to_writer(W(at), x).is_err(), "error of the destination is lost");
        assert!(serde_json::to_writer(W(text.len()), x).is_ok());
        c.ev("failing destinations", 1);
    }
}

/// All deserialized forms of the nested value, for one target type.
fn de<T: Elem, S: Shape, X: DeserializeOwned>(c: &mut Case, v: &Value, read: fn(&X) -> (Vec<usize>, Vec<T>)) -> bool {
    let k = consts::<S>();
    let mut vals = Vec::new();
    let want = parse::<T>(v, &k, &mut vals);
    let name = std::any::type_name::<S>();
    let check = |c: &mut Case, how: &str, got: Result<Result<X, String>, String>| {
        let got = got.unwrap_or_else(|e| panic!("{how}: deserializing {v} as {name} panics: {e}"));
        match (&want, got) {
            (Ok(dims), Ok(x)) => {
                let (d, e) = read(&x);
                let fits = d.len() == dims.len() && d.iter().zip(dims).all(|(a, b)| b.is_none_or(|b| *a == b));
                assert!(fits, "{how}: {v} as {name} gives shape {d:?}, expected {dims:?}");
                assert!(product(&d) == e.len(), "{how}: shape {d:?} with {} elements", e.len());
                assert!(e == vals, "{how}: {v} as {name} gives {e:?}");
                c.ev("accepted inputs", 1);
            }
            (Err(_), Err(_)) => c.ev("rejected inputs", 1),
            (Ok(_), Err(e)) => panic!("{how}: {v} as {name} is rejected: {e}"),
            (Err(e), Ok(x)) => panic!("{how}: {v} as {name} is accepted with shape {:?}: {e}", read(&x).0),
        }
    };
    let text = v.to_string();
    check(c, "text", caught(|| serde_json::from_str::<X>(&text).map_err(|e| e.to_string())));
    check(c, "reader", caught(|| serde_json::from_reader::<_, X>(text.as_bytes()).map_err(|e| e.to_string())));
    check(c, "value", caught(|| serde_json::from_value::<X>(v.clone()).map_err(|e| e.to_string())));
    for h in [Hint::None, Hint::Exact, Hint::Less, Hint::Huge] {
        if !matches!(T::NAME, "u64" | "u8" | "i32" | "String" | "Tr") {
            break; // Elements that the plain data model below cannot describe.
        }
        // Huge hints for small inputs must not be turned into huge allocations.
        vh::alloc::take_max_request();
        check(c, &format!("hint {h:?}"), caught(|| X::deserialize(Hinted(v, h)).map_err(|e| e.to_string())));
        let m = vh::alloc::take_max_request();
        assert!(m <= (16 << 20) + 64 * text.len(), "allocation of {m} bytes for an input of {} bytes", text.len());
    }
    drop(vals);
    want.is_ok()
}

/// A random change of the nested value.
fn damage(c: &mut Case, v: &mut Value, depth: usize) {
    let n = v.as_array().map_or(0, |a| a.len());
    if depth > 0 && n > 0 && c.rng.chance(3, 5) {
        let i = c.rng.below(n);
        return damage(c, &mut v[i], depth - 1);
    }
    match c.rng.below(9) {
        0 => *v = json!(7),
        1 => *v = json!([v.clone()]),
        2 => *v = json!([]),
        3 => *v = Value::Null,
        4 => *v = json!({"a": 1}),
        5 => *v = json!(-1),
        6 => *v = json!("s7"),
        _ => {
            if let Value::Array(a) = v {
                match c.rng.below(3) {
                    0 if n > 0 => drop(a.remove(n - 1)),
                    1 if n > 0 => a.push(a[0].clone()),
                    _ if n > 0 => drop(a.remove(0)),
                    _ => a.push(json!(1)),
                }
            } else {
                *v = json!([v.clone(), v.clone()]);
            }
        }
    }
}

fn read_t<T: Clone, S: Shape>(t: &Tensor<T, S>) -> (Vec<usize>, Vec<T>) {
    // The buffer itself, not only what the shape makes visible.
    assert!(t.capacity() >= t.len());
    (dims_of(t.shape()), t.to_vec())
}

fn read_a<T: Clone, S: ConstShape>(t: &Array<T, S>) -> (Vec<usize>, Vec<T>) {
    (dims_of(t.shape()), t.to_vec())
}

/// One target type with sizes that fit it, and damaged forms.
fn target<T: Elem, S: Shape, X: DeserializeOwned>(c: &mut Case, read: fn(&X) -> (Vec<usize>, Vec<T>)) {
    let k = consts::<S>();
    let cap = c.cap(60);
    let mut dims = c.rng.dims(k.len(), cap);
    for (d, k) in dims.iter_mut().zip(&k) {
        if let Some(n) = k {
            if !c.rng.chance(1, 8) {
                *d = *n;
            }
        }
    }
    if product(&dims) > 3 * cap {
        return;
    }
    let start = c.rng.u64() % 100;
    let vals: Vec<T> = (0..product(&dims) as u64).map(|i| T::mk(start + i)).collect();
    let mut v = nested(&dims, &vals.iter().map(|x| json!(x)).collect::<Vec<_>>());
    drop(vals);
    c.log(|| format!("deserialize {v} as {}", std::any::type_name::<X>()));
    let ok = de::<T, S, X>(c, &v, read);
    let fits = dims.iter().zip(&k).all(|(d, k)| k.is_none_or(|k| *d == k));
    assert!(ok == fits || dims.contains(&0), "oracle");
    c.seen(&[dims.iter().fold(1, |a, &x| a * 11 + x as u64), ok as u64]);
    for _ in 0..c.rng.range(1, 3) {
        damage(c, &mut v, k.len());
        c.log(|| format!("damaged: {v}"));
        let ok = de::<T, S, X>(c, &v, read);
        c.seen(&[vh::rng::hash_str(&v.to_string()), ok as u64]);
    }
    track::check_errors();
    track::check_none();
}

macro_rules! targets {
    ($c:ident, $t:ty, [$($s:ty),*], [$($a:ty),*]) => {{
        let fs: &[fn(&mut Case)] = &[
            $(|c| target::<$t, $s, Tensor<$t, $s>>(c, read_t),)*
            $(|c| target::<$t, $a, Array<$t, $a>>(c, read_a),)*
            $(|c| target::<$t, $a, Tensor<$t, $a>>(c, read_t),)*
        ];
        let i = $c.index as usize % fs.len();
        fs[i]($c)
    }};
}

fn targets<T: Elem>(c: &mut Case) {
    targets!(
        c, T,
        [(), (U,), (U, U), (Const<2>, U), (U, Const<3>), (U, Const<0>), (U, U, U), (Const<2>, U, Const<2>),
         (U, Const<2>, U), (U, U, U, U), (U, Const<1>, U, Const<2>), (U, U, U, U, U), (U, U, U, U, U, U)],
        [(), (Const<3>,), (Const<0>,), (Const<2>, Const<3>), (Const<0>, Const<3>), (Const<2>, Const<0>),
         (Const<2>, Const<1>, Const<3>), (Const<2>, Const<1>, Const<2>, Const<2>)]
    )
}

/// Round trips of tensors, arrays and views with any layout.
fn round<T: Elem + Default>(c: &mut Case) {
    let r = c.rng.range(0, 6);
    let cap = c.cap(60);
    let d = c.rng.dims(r, cap);
    let n = product(&d);
    let start = c.rng.u64() % 100;
    let vals: Vec<T> = (0..n as u64).map(|i| T::mk(start + i)).collect();
    c.log(|| format!("serialize {d:?} of {}", T::NAME));
    let mut s = Strider::new(c, &d, vals.clone(), T::default);
    fn back<T: Elem, S: Shape, L: Layout>(c: &mut Case, x: &Slice<T, S, L>, d: &[usize], vals: &[T]) {
        let empty = d.len() > 1 && d[..d.len() - 1].contains(&0);
        let text = serde_json::to_string(x).unwrap();
        let bin = bincode::serialize(x).unwrap();
        let ts: [Tensor<T, S>; 3] = [
            serde_json::from_str(&text).unwrap_or_else(|e| panic!("{text} is not read back: {e}")),
            serde_json::from_value(serde_json::to_value(x).unwrap()).expect("not read back"),
            bincode::deserialize(&bin).expect("not read back"),
        ];
        for t in ts {
            if empty {
                assert!(t.is_empty() && t.dim(0) == d[0]);
            } else {
                assert!(dims_of(t.shape()) == d, "shape {d:?} is read back as {:?}", t.shape());
                assert!(t.to_vec() == vals, "elements differ: {:?} instead of {vals:?}", t.to_vec());
                assert!(*t == *x, "not equal after the round trip");
            }
        }
        c.ev("round trips", 3);
        // Truncated binary input.
        if !bin.is_empty() {
            let k = c.rng.below(bin.len());
            let res = caught(|| bincode::deserialize::<Tensor<T, S>>(&bin[..k]));
            assert!(res.expect("truncated input panics").is_err(), "truncated input is accepted");
            let k = c.rng.below(text.len());
            let res = caught(|| serde_json::from_str::<Tensor<T, S>>(&text[..k]));
            let res = res.expect("truncated input panics");
            assert!(res.is_err() || d.is_empty(), "truncated input {:?} is accepted", &text[..k]);
            c.ev("truncated inputs", 2);
        }
    }
    as_rank!(s.view(), r, x => {
        ser(c, &*x, &d, &vals);
        ser(c, &x, &d, &vals);
        back(c, &x, &d, &vals);
    });
    as_rank!(s.view_mut(), r, x => ser(c, &x, &d, &vals));
    let t: Tensor<T, mdarray::DynRank> = Tensor::from(vals.clone()).into_shape(&d[..]);
    as_rank_t!(t, r, x => {
        ser(c, &x, &d, &vals);
        ser(c, &*x, &d, &vals);
        ser(c, &x.expr(), &d, &vals);
        back(c, &x, &d, &vals);
    });
    if n >= 12 {
        let a: Array<T, (Const<3>, Const<4>)> = Array::from_fn(|i| vals[i[0] * 4 + i[1]].clone());
        ser(c, &a, &[3, 4], &vals[..12]);
        ser(c, &View::<T, (Const<3>, Const<4>)>::from(&a.0), &[3, 4], &vals[..12]);
        let b: Array<T, (Const<3>, Const<4>)> = bincode::deserialize(&bincode::serialize(&a).unwrap()).unwrap();
        assert!(a == b);
        let z: Array<T, ()> = Array(vals[5].clone());
        ser(c, &z, &[], &vals[5..6]);
        let b: Array<T, ()> = serde_json::from_value(json!(vals[5])).unwrap();
        assert!(b == z);
        let t: Tensor<T, (Const<3>, U)> = Tensor::from_fn((Const::<3>, 4), |i| vals[i[0] * 4 + i[1]].clone());
        ser(c, &t, &[3, 4], &vals[..12]);
    }
    c.seen(&[vh::rng::hash_str(T::NAME), d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
}

/// Length prefixes that do not correspond to the data.
fn prefix(c: &mut Case) {
    let r = c.rng.range(1, 4);
    let cap = c.cap(40);
    let d = c.rng.dims_pos(r, cap);
    let t = tens::<u64>(&d);
    let mut bytes = as_rank_t!(t, r, x => bincode::serialize(&x).unwrap());
    // The length of some level of the first branch.
    let level = c.rng.below(r);
    let n = d[level] as u64;
    let fake = match c.rng.below(5) {
        0 => n + c.rng.range(1, 5) as u64,
        1 => u64::MAX,
        2 => u64::MAX / 8,
        3 => 1 << c.rng.range(20, 62),
        _ => n - c.rng.range(1, n as usize) as u64,
    };
    bytes[8 * level..8 * level + 8].copy_from_slice(&fake.to_le_bytes());
    c.log(|| format!("{d:?} with length {fake} instead of {n} at level {level}"));
    vh::alloc::take_max_request();
    fn rd<S: Shape>(b: &[u8]) -> Result<(Vec<usize>, usize), String> {
        match caught(|| bincode::deserialize::<Tensor<u64, S>>(b)) {
            Ok(Ok(t)) => Ok((dims_of(t.shape()), t.to_vec().len())),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => panic!("deserializing panics: {e}"),
        }
    }
    let res = match r {
        1 => rd::<(U,)>(&bytes),
        2 => rd::<(U, U)>(&bytes),
        3 => rd::<(U, U, U)>(&bytes),
        _ => rd::<(U, U, U, U)>(&bytes),
    };
    let m = vh::alloc::take_max_request();
    assert!(m <= (16 << 20) + 64 * bytes.len(), "allocation of {m} bytes for an input of {} bytes", bytes.len());
    match res {
        Ok((e, k)) => {
            assert!(product(&e) == k, "shape {e:?} with {k} elements");
            // A larger length of the outermost level can never be satisfied.
            assert!(level > 0 || fake < n, "length {fake} instead of {n} is accepted");
            c.ev("accepted inputs", 1);
        }
        Err(_) => c.ev("rejected inputs", 1),
    }
    c.seen(&[level as u64, fake, d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
}

/// Large arrays, so that growth beyond the initial capacity is exercised.
fn large(c: &mut Case) {
    let n = c.rng.range(100_000, 200_000);
    let k = c.rng.range(1, 20);
    let d = [n / k, k];
    let t = tens::<u64>(&d).into_mapping::<(U, U)>();
    c.log(|| format!("serialize {d:?}"));
    let bin = bincode::serialize(&t).unwrap();
    let u: Tensor<u64, (U, U)> = bincode::deserialize(&bin).unwrap();
    assert!(u == t && u.to_vec() == vals::<u64>(d[0] * d[1], 0), "large array differs");
    let text = serde_json::to_string(&t).unwrap();
    let u: Tensor<u64, (U, U)> = serde_json::from_str(&text).unwrap();
    assert!(u == t, "large array differs");
    let s = Strider::<u64>::make(c, &d, 0);
    let v = s.view().into_mapping::<(U, U), mdarray::Strided>();
    assert!(bincode::serialize(&v).unwrap() == bin && serde_json::to_string(&v).unwrap() == text, "large strided view differs");
    let f = t.into_flat();
    let u: Tensor<u64, (U,)> = bincode::deserialize(&bincode::serialize(&f).unwrap()).unwrap();
    assert!(u == f);
    c.ev("round trips", 3);
    c.seen(&[d[0] as u64, d[1] as u64]);
}

/// Elements whose (de)serialization fails.
fn failing(c: &mut Case) {
    struct F(u32);
    impl Serialize for F {
        fn serialize<R: Serializer>(&self, r: R) -> Result<R::Ok, R::Error> {
            if self.0 == 0 {
                Err(serde::ser::Error::custom("refused"))
            } else {
                r.serialize_u32(self.0)
            }
        }
    }
    let r = c.rng.range(1, 4);
    let d = c.rng.dims_pos(r, 30);
    let n = product(&d);
    let at = c.rng.below(n + 1);
    let vals: Vec<F> = (0..n).map(|i| F((i != at) as u32 * (i as u32 + 1))).collect();
    let t: Tensor<F, mdarray::DynRank> = Tensor::from(vals).into_shape(&d[..]);
    c.log(|| format!("{d:?}, element {at} cannot be serialized"));
    let res = as_rank_t!(t, r, x => (serde_json::to_string(&x).is_ok(), bincode::serialize(&x).is_ok()));
    assert!(res == (at == n, at == n), "failure of element {at} of {n}: {res:?}");
    c.ev("failing elements", 2);
    c.seen(&[at as u64, d.iter().fold(1, |a, &x| a * 11 + x as u64)]);
    let _ = 1u8.into_deserializer() as serde::de::value::U8Deserializer<Oops>;
}

pub fn run(r: &mut Runner) {
    r.section("round-u64", 400, 3, round::<u64>);
    r.section("round-string", 200, 2, round::<String>);
    r.section("round-option", 150, 1, round::<Option<u16>>);
    r.section("round-vec", 150, 1, round::<Vec<u8>>);
    r.section("round-tuple", 150, 1, round::<(u8, bool)>);
    r.section("target-u64", 1500, 10, targets::<u64>);
    r.section("target-u8", 500, 3, targets::<u8>);
    r.section("target-i32", 500, 3, targets::<i32>);
    r.section("target-string", 500, 3, targets::<String>);
    r.section("target-vec", 500, 3, targets::<Vec<u8>>);
    r.section("target-option", 300, 3, targets::<Option<u16>>);
    r.section("target-tracked", 1000, 8, targets::<T16>);
    r.section("prefix", 600, 6, prefix);
    r.section("failing", 300, 4, failing);
    r.section("large", 4, 0, large);
}
