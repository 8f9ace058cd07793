//! Reference definitions of the behaviour the properties demand (never executed: their MIR is
//! interpreted abstractly and compared, path by path, with the code in /repo).  The types here
//! stand for the types of the same path in /repo.
#![allow(dead_code, unused, non_snake_case, clippy::all)]
pub mod bencode;
pub mod common;
pub mod dht;
pub mod torrent_rs;
/// Types of libraries.
pub mod ext {
    pub mod url {
        pub struct Url(());
        impl std::str::FromStr for Url { type Err = (); fn from_str(s: &str) -> Result<Url, ()> { loop {} } }
        pub struct ParseError(());
        impl Url {
            pub fn parse(s: &str) -> Result<Url, ParseError> { loop {} }
            pub fn scheme(&self) -> &str { loop {} }
            pub fn query_pairs(&self) -> super::form_urlencoded::Parse<'_> { loop {} }
        }
    }
    pub mod form_urlencoded {
        use std::borrow::Cow;
        pub struct Parse<'a>(&'a [u8]);
        impl<'a> Iterator for Parse<'a> {
            type Item = (Cow<'a, str>, Cow<'a, str>);
            fn next(&mut self) -> Option<(Cow<'a, str>, Cow<'a, str>)> { loop {} }
        }
    }
}
