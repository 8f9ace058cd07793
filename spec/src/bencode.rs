use std::collections::BTreeMap;

pub mod error { pub enum Error { IO, EOF, ParseInt, ParseBytes, ParseString, ParseList, ParseDict, InvalidChar(u8), ExpectedChar(u8), DepthLimit, ItemLimit } }
pub mod value {
    use std::collections::BTreeMap;
    #[derive(Clone, PartialEq, PartialOrd)]
    pub enum Value {
        Int(i64),
        Bytes(Vec<u8>),
        List(Vec<Value>),
        Dict(BTreeMap<String, Value>),
    }
    impl Value { pub fn decode(b: &[u8]) -> Result<Value, super::error::Error> { loop {} } }
}
pub mod value_ref {
    use std::collections::BTreeMap;
    #[derive(Clone, PartialEq, PartialOrd)]
    pub enum ValueRef<'a> {
        Int(i64),
        Bytes(&'a [u8]),
        List(Vec<ValueRef<'a>>),
        Dict(BTreeMap<&'a str, ValueRef<'a>>),
    }
}
use value::Value;
use value_ref::ValueRef;
impl<'a> ValueRef<'a> { pub fn decode_with_limits(b: &'a [u8], d: Option<usize>, i: Option<usize>) -> Result<ValueRef<'a>, error::Error> { loop {} } }
impl ValueRef<'_> { pub fn to_owned(&self) -> Value { loop {} } pub fn to_vec(&self) -> Vec<u8> { loop {} } }
impl Value { pub fn as_ref(&self) -> ValueRef { loop {} } pub fn to_vec(&self) -> Vec<u8> { loop {} } }

macro_rules! accessors {
    ($m:ident, $T:ty, $V:ident, $S:ty, $B:ty, $D:ty, [$($g:lifetime),*]) => {
        pub mod $m {
            use super::*;
            pub fn with_int<$($g),*>(v: i64) -> $T { $V::Int(v) }
            pub fn with_list<$($g),*>(v: Vec<$T>) -> $T { $V::List(v) }
            pub fn with_dict<$($g),*>(v: $D) -> $T { $V::Dict(v) }
            pub fn is_string<$($g),*>(v: &$T) -> bool { match v { $V::Bytes(_) => true, _ => false } }
            pub fn is_int<$($g),*>(v: &$T) -> bool { match v { $V::Int(_) => true, _ => false } }
            pub fn is_list<$($g),*>(v: &$T) -> bool { match v { $V::List(_) => true, _ => false } }
            pub fn is_dict<$($g),*>(v: &$T) -> bool { match v { $V::Dict(_) => true, _ => false } }
            pub fn as_int<$($g),*>(v: &$T) -> Option<i64> { match v { $V::Int(n) => Some(*n), _ => None } }
            pub fn as_list<'s, $($g),*>(v: &'s $T) -> Option<&'s [$T]> { match v { $V::List(n) => Some(n), _ => None } }
            pub fn as_list_mut<'s, $($g),*>(v: &'s mut $T) -> Option<&'s mut Vec<$T>> { match v { $V::List(n) => Some(n), _ => None } }
            pub fn into_list<$($g),*>(v: $T) -> Option<Vec<$T>> { match v { $V::List(n) => Some(n), _ => None } }
            pub fn as_dict<'s, $($g),*>(v: &'s $T) -> Option<&'s $D> { match v { $V::Dict(n) => Some(n), _ => None } }
            pub fn as_dict_mut<'s, $($g),*>(v: &'s mut $T) -> Option<&'s mut $D> { match v { $V::Dict(n) => Some(n), _ => None } }
            pub fn into_dict<$($g),*>(v: $T) -> Option<$D> { match v { $V::Dict(n) => Some(n), _ => None } }
            pub fn dict_find<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s $T> { match v { $V::Dict(m) => m.get(key), _ => None } }
            pub fn dict_find_int<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s $T> {
                match dict_find(v, key) { Some(x) => match x { $V::Int(_) => Some(x), _ => None }, None => None }
            }
            pub fn dict_find_int_value<'s, $($g),*>(v: &'s $T, key: &str) -> Option<i64> {
                match dict_find(v, key) { Some(x) => match x { $V::Int(n) => Some(*n), _ => None }, None => None }
            }
            pub fn dict_find_str<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s $T> {
                match dict_find(v, key) { Some(x) => match x { $V::Bytes(_) => Some(x), _ => None }, None => None }
            }
            pub fn dict_find_list<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s $T> {
                match dict_find(v, key) { Some(x) => match x { $V::List(_) => Some(x), _ => None }, None => None }
            }
            pub fn dict_find_list_value<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s [$T]> {
                match dict_find(v, key) { Some(x) => match x { $V::List(n) => Some(n), _ => None }, None => None }
            }
            pub fn dict_find_dict<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s $T> {
                match dict_find(v, key) { Some(x) => match x { $V::Dict(_) => Some(x), _ => None }, None => None }
            }
            pub fn dict_len<$($g),*>(v: &$T) -> Option<usize> { match v { $V::Dict(m) => Some(m.len()), _ => None } }
            pub fn list_at<'s, $($g),*>(v: &'s $T, index: usize) -> Option<&'s $T> {
                match v { $V::List(l) => if index < l.len() { Some(&l[index]) } else { None }, _ => None }
            }
            pub fn list_int_value_at<$($g),*>(v: &$T, index: usize) -> Option<i64> {
                match list_at(v, index) { Some(x) => match x { $V::Int(n) => Some(*n), _ => None }, None => None }
            }
            pub fn list_len<$($g),*>(v: &$T) -> Option<usize> { match v { $V::List(l) => Some(l.len()), _ => None } }
            pub fn as_str<'s, $($g),*>(v: &'s $T) -> Option<&'s str> {
                match v { $V::Bytes(b) => match std::str::from_utf8(b) { Ok(s) => Some(s), Err(_) => None }, _ => None }
            }
            pub fn as_bytes<'s, $($g),*>(v: &'s $T) -> Option<&'s [u8]> { match v { $V::Bytes(b) => Some(b), _ => None } }
            pub fn dict_find_str_value<'s, $($g),*>(v: &'s $T, key: &str) -> Option<&'s str> {
                match dict_find(v, key) { Some(x) => as_str(x), None => None }
            }
            pub fn list_string_value_at<'s, $($g),*>(v: &'s $T, index: usize) -> Option<&'s str> {
                match list_at(v, index) { Some(x) => as_str(x), None => None }
            }
        }
    };
}
type MapV = BTreeMap<String, Value>;
accessors!(own, Value, Value, String, Vec<u8>, BTreeMap<String, Value>, []);
accessors!(bor, ValueRef<'a>, ValueRef, &'a str, &'a [u8], BTreeMap<&'a str, ValueRef<'a>>, ['a]);

pub mod own2 {
    use super::*;
    pub fn with_str(s: &str) -> Value { Value::Bytes(s.as_bytes().to_vec()) }
    pub fn with_string(s: String) -> Value { Value::Bytes(s.into_bytes()) }
    pub fn from_slice(s: &[u8]) -> Value { Value::Bytes(s.to_vec()) }
    pub fn from_vec(s: Vec<u8>) -> Value { Value::Bytes(s) }
}
pub mod bor2 {
    use super::*;
    pub fn with_str<'a>(s: &'a str) -> ValueRef<'a> { ValueRef::Bytes(s.as_bytes()) }
    pub fn from_slice<'a>(s: &'a [u8]) -> ValueRef<'a> { ValueRef::Bytes(s) }
}

/// The decoder, as a machine with a stack of open containers (each with the number of values that were complete
/// when it was opened) and a stack of complete values.
pub mod decode {
    use super::error::Error;
    use super::*;
    pub enum Open { Dict(usize), List(usize) }
    fn number(bytes: &[u8], from: usize, stop: u8) -> Result<(i64, usize), Error> {
        if from >= bytes.len() { return Err(Error::EOF); }
        let n = match bytes[from..].iter().position(|b| *b == stop) { Some(n) => n, None => return Err(Error::ExpectedChar(stop)) };
        match std::str::from_utf8(&bytes[from..from + n]) {
            Ok(s) => match s.parse() { Ok(i) => Ok((i, from + n + 1)), Err(_) => Err(Error::ParseInt) },
            Err(_) => Err(Error::ParseInt),
        }
    }
    macro_rules! decoder {
        ($f:ident, $T:ty, $V:ident, $b:ident, $raw:expr, $k:ident, $key:expr, [$($g:lifetime),*]) => {
            pub fn $f<$($g),*>(bytes: & $($g)* [u8], depth: Option<usize>, limit: Option<usize>) -> Result<$T, Error> {
                let mut open: Vec<Open> = Vec::new();
                let mut vals: Vec<$T> = Vec::new();
                let mut n: usize = 0;
                let mut p: usize = 0;
                while p < bytes.len() {
                    let c = bytes[p];
                    p += 1;
                    if c == b'e' {
                        match open.pop() {
                            None => return Err(Error::InvalidChar(b'e')),
                            Some(Open::List(at)) => {
                                let l = vals.split_off(at);
                                vals.push($V::List(l));
                            }
                            Some(Open::Dict(at)) => {
                                if (vals.len() - at) % 2 != 0 { return Err(Error::ParseDict); }
                                let mut m = BTreeMap::new();
                                // from the last entry to the first: of equal keys, the first one counts
                                while vals.len() > at {
                                    let v = vals.pop().unwrap();
                                    let $k = vals.pop().unwrap();
                                    match $key { Some(s) => { m.insert(s, v); } None => return Err(Error::ParseDict) }
                                }
                                vals.push($V::Dict(m));
                            }
                        }
                        continue;
                    }
                    if open.len() == 0 && vals.len() != 0 { return Err(Error::EOF); }
                    if let Some(d) = depth { if open.len() > d { return Err(Error::DepthLimit); } }
                    if let Some(d) = limit { if n > d { return Err(Error::ItemLimit); } }
                    n += 1;
                    if c >= b'0' && c <= b'9' {
                        let (len, q) = match number(bytes, p - 1, b':') { Ok(x) => x, Err(e) => return Err(e) };
                        let len = len as usize;
                        if len > bytes.len() - q { return Err(Error::EOF); }
                        let $b = &bytes[q..q + len];
                        vals.push($V::Bytes($raw));
                        p = q + len;
                    } else if c == b'i' {
                        let (i, q) = match number(bytes, p, b'e') { Ok(x) => x, Err(e) => return Err(e) };
                        vals.push($V::Int(i));
                        p = q;
                    } else if c == b'l' { open.push(Open::List(vals.len())); }
                    else if c == b'd' { open.push(Open::Dict(vals.len())); }
                    else { return Err(Error::InvalidChar(c)); }
                }
                if open.len() != 0 || vals.len() != 1 { return Err(Error::EOF); }
                Ok(vals.pop().unwrap())
            }
        };
    }
    decoder!(owned, Value, Value, b, b.to_vec(), k, match k { Value::Bytes(x) => match String::from_utf8(x) { Ok(s) => Some(s), Err(_) => None }, _ => None }, []);
    decoder!(borrowed, ValueRef<'a>, ValueRef, b, b, k, match k { ValueRef::Bytes(x) => match std::str::from_utf8(x) { Ok(s) => Some(s), Err(_) => None }, _ => None }, ['a]);
}
pub mod entry {
    use super::*;
    use super::error::Error;
    pub fn owned_decode(b: &[u8]) -> Result<Value, Error> { decode::owned(b, None, None) }
    pub fn owned_text(s: &str) -> Result<Value, Error> { decode::owned(s.as_bytes(), None, None) }
    pub fn borrowed_decode<'a>(b: &'a [u8]) -> Result<ValueRef<'a>, Error> { decode::borrowed(b, None, None) }
}

/// Encoding as a machine with a stack of things to write.
pub mod encode {
    use super::*;
    use std::io::Write;
    pub enum Todo<'a> { Value(&'a Value), Key(&'a str), End }
    pub enum TodoRef<'a> { Value(&'a ValueRef<'a>), Key(&'a str), End }
    macro_rules! encoder {
        ($f:ident, $todo:ident, $T:ty, $V:ident) => {
            pub fn $f<'a>(v: &'a $T, out: &mut Vec<u8>) -> std::io::Result<()> {
                let mut todo: Vec<$todo<'a>> = Vec::new();
                todo.push($todo::Value(v));
                while let Some(t) = todo.pop() {
                    match t {
                        $todo::End => out.push(b'e'),
                        $todo::Key(k) => {
                            out.extend_from_slice(k.len().to_string().as_bytes());
                            out.push(b':');
                            out.extend_from_slice(k.as_bytes());
                        }
                        $todo::Value($V::Int(n)) => {
                            out.push(b'i');
                            out.extend_from_slice(n.to_string().as_bytes());
                            out.push(b'e');
                        }
                        $todo::Value($V::Bytes(b)) => {
                            out.extend_from_slice(b.len().to_string().as_bytes());
                            out.push(b':');
                            out.extend_from_slice(b);
                        }
                        $todo::Value($V::List(l)) => {
                            out.push(b'l');
                            todo.push($todo::End);
                            for x in l.iter().rev() { todo.push($todo::Value(x)); }
                        }
                        $todo::Value($V::Dict(m)) => {
                            out.push(b'd');
                            todo.push($todo::End);
                            for (k, x) in m.iter().rev() {
                                todo.push($todo::Value(x));
                                todo.push($todo::Key(k));
                            }
                        }
                    }
                }
                Ok(())
            }
        };
    }
    encoder!(owned, Todo, Value, Value);
    encoder!(borrowed, TodoRef, ValueRef<'a>, ValueRef);
}
pub mod bytes {
    use super::*;
    pub fn owned(v: &Value) -> Vec<u8> {
        let mut out = Vec::new();
        encode::owned(v, &mut out).unwrap();
        out
    }
    pub fn borrowed<'a>(v: &'a ValueRef<'a>) -> Vec<u8> {
        let mut out = Vec::new();
        encode::borrowed(v, &mut out).unwrap();
        out
    }
}

/// One level of the conversions; the levels below are the functions themselves.
pub mod conv {
    use super::*;
    pub fn to_owned(v: &ValueRef<'_>) -> Value {
        match v {
            ValueRef::Int(n) => Value::Int(*n),
            ValueRef::Bytes(b) => Value::Bytes(b.to_vec()),
            ValueRef::List(l) => {
                let mut r = Vec::new();
                for x in l.iter() { r.push(x.to_owned()); }
                Value::List(r)
            }
            ValueRef::Dict(m) => {
                let mut r = BTreeMap::new();
                for (k, x) in m.iter() { r.insert(String::from(*k), x.to_owned()); }
                Value::Dict(r)
            }
        }
    }
    pub fn as_ref(v: &Value) -> ValueRef<'_> {
        match v {
            Value::Int(n) => ValueRef::Int(*n),
            Value::Bytes(b) => ValueRef::Bytes(b),
            Value::List(l) => {
                let mut r = Vec::new();
                for x in l.iter() { r.push(x.as_ref()); }
                ValueRef::List(r)
            }
            Value::Dict(m) => {
                let mut r = BTreeMap::new();
                for (k, x) in m.iter() { r.insert(k.as_str(), x.as_ref()); }
                ValueRef::Dict(r)
            }
        }
    }
}
/// Errors as seen through std::io.
pub mod failure {
    use super::error::Error;
    use std::io;
    pub fn to_io(e: Error) -> io::Error {
        match e {
            Error::IO => io::Error::from(io::ErrorKind::Other),
            Error::EOF => io::Error::from(io::ErrorKind::UnexpectedEof),
            _ => io::Error::from(io::ErrorKind::InvalidData),
        }
    }
}
/// Printed forms.
pub mod print {
    use super::{value::Value, value_ref::ValueRef};
    pub fn value(v: &Value, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&String::from_utf8_lossy(&v.to_vec()))
    }
    pub fn value_ref(v: &ValueRef<'_>, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&String::from_utf8_lossy(&v.to_vec()))
    }
}
/// Values as plain data.
pub mod plain {
    use super::{value::Value, value_ref::ValueRef};
    use std::cmp::Ordering;
    pub fn same(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Int(x), Value::Int(y)) => *x == *y,
            (Value::Bytes(x), Value::Bytes(y)) => *x == *y,
            (Value::List(x), Value::List(y)) => *x == *y,
            (Value::Dict(x), Value::Dict(y)) => *x == *y,
            _ => false,
        }
    }
    pub fn copy(a: &Value) -> Value {
        match a {
            Value::Int(x) => Value::Int(*x),
            Value::Bytes(x) => Value::Bytes(x.clone()),
            Value::List(x) => Value::List(x.clone()),
            Value::Dict(x) => Value::Dict(x.clone()),
        }
    }
    fn rank(a: &Value) -> u8 { match a { Value::Int(_) => 0, Value::Bytes(_) => 1, Value::List(_) => 2, Value::Dict(_) => 3 } }
    pub fn order(a: &Value, b: &Value) -> Option<Ordering> {
        match (a, b) {
            (Value::Int(x), Value::Int(y)) => Some(if *x < *y { Ordering::Less } else if *x > *y { Ordering::Greater } else { Ordering::Equal }),
            (Value::Bytes(x), Value::Bytes(y)) => x.partial_cmp(y),
            (Value::List(x), Value::List(y)) => x.partial_cmp(y),
            (Value::Dict(x), Value::Dict(y)) => x.partial_cmp(y),
            _ => Some(if rank(a) < rank(b) { Ordering::Less } else { Ordering::Greater }),
        }
    }
    pub fn same_ref(a: &ValueRef<'_>, b: &ValueRef<'_>) -> bool {
        match (a, b) {
            (ValueRef::Int(x), ValueRef::Int(y)) => *x == *y,
            (ValueRef::Bytes(x), ValueRef::Bytes(y)) => **x == **y,
            (ValueRef::List(x), ValueRef::List(y)) => *x == *y,
            (ValueRef::Dict(x), ValueRef::Dict(y)) => *x == *y,
            _ => false,
        }
    }
    pub fn copy_ref<'a>(a: &ValueRef<'a>) -> ValueRef<'a> {
        match a {
            ValueRef::Int(x) => ValueRef::Int(*x),
            ValueRef::Bytes(x) => ValueRef::Bytes(*x),
            ValueRef::List(x) => ValueRef::List(x.clone()),
            ValueRef::Dict(x) => ValueRef::Dict(x.clone()),
        }
    }
    fn rank_ref(a: &ValueRef<'_>) -> u8 { match a { ValueRef::Int(_) => 0, ValueRef::Bytes(_) => 1, ValueRef::List(_) => 2, ValueRef::Dict(_) => 3 } }
    pub fn order_ref(a: &ValueRef<'_>, b: &ValueRef<'_>) -> Option<Ordering> {
        match (a, b) {
            (ValueRef::Int(x), ValueRef::Int(y)) => Some(if *x < *y { Ordering::Less } else if *x > *y { Ordering::Greater } else { Ordering::Equal }),
            (ValueRef::Bytes(x), ValueRef::Bytes(y)) => x.partial_cmp(y),
            (ValueRef::List(x), ValueRef::List(y)) => x.partial_cmp(y),
            (ValueRef::Dict(x), ValueRef::Dict(y)) => x.partial_cmp(y),
            _ => Some(if rank_ref(a) < rank_ref(b) { Ordering::Less } else { Ordering::Greater }),
        }
    }
}
