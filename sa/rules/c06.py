"""Typed accessors of decoded values."""
from .lib import *
from ..equiv import equiv

RULE = ('each accessor and constructor of Value and ValueRef is compared path by path with its reference definition '
        '(the variant decides, the stored payload is returned, borrowed results point into the value)')
COMMON = '''with_int with_list with_dict is_string is_int is_list is_dict as_int as_list as_list_mut into_list as_dict as_dict_mut into_dict
dict_find dict_find_int dict_find_int_value dict_find_str dict_find_list dict_find_list_value dict_find_dict dict_len list_at list_int_value_at
list_len as_str as_bytes dict_find_str_value list_string_value_at'''.split()


def accessors(c):
    for m in COMMON:
        equiv(c, 'bencode::value::Value::' + m, 'bencode::own::' + m)
        equiv(c, 'bencode::value_ref::ValueRef::' + m, 'bencode::bor::' + m)
    equiv(c, 'bencode::value::Value::with_str', 'bencode::own2::with_str')
    equiv(c, 'bencode::value::Value::with_string', 'bencode::own2::with_string')
    equiv(c, '<bencode::value::Value as std::convert::From<&[u8]>>::from', 'bencode::own2::from_slice')
    equiv(c, '<bencode::value::Value as std::convert::From<std::vec::Vec<u8>>>::from', 'bencode::own2::from_vec')
    equiv(c, 'bencode::value_ref::ValueRef::with_str', 'bencode::bor2::with_str')
    equiv(c, '<bencode::value_ref::ValueRef as std::convert::From<&[u8]>>::from', 'bencode::bor2::from_slice')


RULES = [accessors]
