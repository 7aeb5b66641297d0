//! The generic functions of tomllib as functions of one type, so that their code is in a crate that is built with the
//! counters of the coverage-guided search.
use tomllib::types::{Children, TOMLError, Value};
use tomllib::TOMLParser;

type R = Result<Value<'static>, TOMLError>;

#[inline(never)]
pub fn set_value<'a>(p: &mut TOMLParser<'a>, k: &str, v: Value<'a>) -> bool {
    p.set_value(k, v)
}
#[inline(never)]
pub fn get_value<'a>(p: &TOMLParser<'a>, k: &str) -> Option<Value<'a>> {
    p.get_value(k)
}
#[inline(never)]
pub fn get_children<'b>(p: &'b TOMLParser<'_>, k: &str) -> Option<&'b Children> {
    p.get_children(k)
}
#[inline(never)]
pub fn combine_child_keys(c: &Children, k: &str) -> Vec<String> {
    c.combine_child_keys(k)
}
macro_rules! strings {
    ($($f:ident)*) => {$(
        #[inline(never)]
        pub fn $f(t: &str) -> R {
            Value::$f(t)
        }
    )*};
}
strings!(int_from_str float_from_str bool_from_str basic_string ml_basic_string literal_string ml_literal_string);
macro_rules! dates {
    ($($f:ident($($a:ident),*))*) => {$(
        #[inline(never)]
        #[allow(clippy::too_many_arguments)]
        pub fn $f($($a: &str),*) -> R {
            Value::$f($($a),*)
        }
    )*};
}
dates!(
    date_from_str(y, mo, d)
    datetime_from_str(y, mo, d, h, m, s)
    datetime_frac_from_str(y, mo, d, h, m, s, f)
    datetime_zulu_from_str(y, mo, d, h, m, s)
    datetime_full_zulu_from_str(y, mo, d, h, m, s, f)
    datetime_offset_from_str(y, mo, d, h, m, s, sign, oh, om)
    datetime_full_from_str(y, mo, d, h, m, s, f, sign, oh, om)
);
#[inline(never)]
pub fn datetime_parse<'a>(t: &'a str) -> Result<Value<'a>, TOMLError> {
    Value::datetime_parse(t)
}
