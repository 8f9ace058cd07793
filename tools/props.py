# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py).
NOTE = 'Proof over all inputs under the abstract semantics of the MIR; trusts rustc, the analyser and its models of library functions (listed in the evidence).'
PROPS = []
NA = []


def P(id, title, statement, over, forall, why, files, mech, note=NOTE, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, note=note)
    d.update(kw)
    PROPS.append(d)


P('C01', 'Bencode decoding never panics and always terminates',
  'For every byte string and every choice of limits, decoding (owned or borrowed, with or without limits, and parsing from text) '
  'returns a value or an error: it never panics, overflows, indexes out of bounds, aborts or loops for ever.',
  ['inputs', 'configurations'], 'all byte strings, all depth and item limits (present or absent)',
  'The tests decode a few dozen literals; a panic needs only one adversarial length, delimiter or nesting pattern among all byte strings.',
  ['bencode/src/reader.rs', 'bencode/src/value.rs', 'bencode/src/value_ref.rs'],
  [('bounds-checked cursor', 'bencode::reader::Reader'), ('decoding loop', 'bencode::value::Value::decode_with_limits, bencode::value_ref::ValueRef::decode_with_limits')])

P('C06', 'Typed accessors return exactly the stored payload of the matching kind',
  'Every typed accessor, lookup, conversion and constructor of an owned or borrowed bencode value returns the stored payload when the value '
  '(or the value found under the key or at the index) is of the requested kind, and nothing otherwise; it never coerces, truncates or panics.',
  ['inputs'], 'all values, keys and indices',
  'Tests read back a few values of the right kind; the wrong-kind, absent-key, out-of-range and non-UTF-8 cases of every accessor are not sampled.',
  ['bencode/src/value.rs', 'bencode/src/value_ref.rs', 'bencode/src/lib.rs'],
  [('accessors', 'bencode::value::Value, bencode::value_ref::ValueRef')])

P('C09', 'Shifting a 160-bit hash moves exactly its bits',
  'For every Sha1Hash and every shift amount, `<<=` and `>>=` shift the hash as a 160-bit big-endian number: every bit moves by exactly that many positions, '
  'vacated bits are zero, amounts of 160 or more give zero, and no memory outside the 20 bytes is touched.',
  ['inputs'], 'all 2^160 hashes and all shift amounts (usize)',
  'The tests shift a handful of constants; the code copies memory with unsafe pointers whose counts depend on the amount, so other amounts corrupt bytes or read out of bounds.',
  ['common/src/sha1.rs'],
  [('shift operators', 'common::sha1::Sha1Hash ShlAssign/ShrAssign')])

P('C10', 'Bitwise operators of a hash act on each bit',
  'Every form of `^`, `&`, `|` (by value, by reference and assigning) and `!` on Sha1Hash computes, for all operands, exactly that operator on each of the 160 bits, '
  'leaves the operands it only borrows unchanged, and never panics.',
  ['inputs'], 'all pairs of 160-bit hashes',
  'The tests combine one or two constants; XOR distance and prefix masks of the DHT need it for all 2^320 pairs.',
  ['common/src/sha1.rs'],
  [('bit operators', 'common::sha1::Sha1Hash BitXor, BitAnd, BitOr, Not')])

P('C11', 'Hash construction, ordering and inspection are those of 20 big-endian bytes',
  'Sha1Hash::from_bytes accepts exactly the 20-byte slices and keeps their bytes; new/min/default/clear give all zero and max all one bits; equality and ordering are bytewise '
  '(big-endian numeric); all_zeroes and leading_zeros report what the bits say for every hash (160 for zero); conversions and clones keep every byte; none of them panics.',
  ['inputs'], 'all byte strings and hashes',
  'Tests look at few constants; length checks and bit counts can go wrong for one length or one leading byte only.',
  ['common/src/sha1.rs'],
  [('constructors and inspections', 'common::sha1::Sha1Hash')])

P('C12', 'The hash of an address covers exactly its octets',
  'Sha1Hash::from_address returns, for every IPv4 or IPv6 address, the SHA-1 of its 4 or 16 octets in network order, and never panics.',
  ['inputs'], 'all 2^32 + 2^128 addresses',
  'No test covers more than single addresses; a truncated or byte-swapped IPv6 address gives a hash all the same.',
  ['common/src/sha1.rs'],
  [('address hash', 'common::sha1::Sha1Hash::from_address')])

P('C21', 'DHT settings survive a save and a read, field by field',
  'For every setting: the default is the documented one, also within the default of the settings as a whole, which prefer verified node ids; save() stores its value under its own key as an integer (flags as 0 or 1); read() of any bencode value takes the setting from that key '
  'when it is there as an integer, and otherwise leaves the default, independent of all other entries; neither panics.',
  ['inputs', 'configurations'], 'all settings values and all bencode values given to read()',
  'A field that is skipped, swapped or read with the wrong key survives tests that only use defaults.',
  ['dht/src/settings.rs'],
  [('settings', 'dht::settings::DhtSettings::{default,read,save}')])

P('C13', 'Hexadecimal conversion is exact in both directions',
  'is_hex accepts exactly the strings of hex digits; hex_to_int gives the value of a digit and nothing for other bytes; from_hex fails exactly on a non-digit or an odd length, and otherwise writes '
  'byte k of the output from digits 2k and 2k+1 and changes nothing else; to_hex writes two lower-case digits per byte, high digit first. None panics when the output of from_hex has room.',
  ['inputs'], 'all byte strings of every length',
  'The tests convert single strings; a wrong table entry, nibble order or boundary shows only for particular bytes and lengths.',
  ['common/src/hex.rs'],
  [('hex', 'common::hex::{is_hex,hex_to_int,from_hex,to_hex}')])

P('C14', 'Bloom filters set and test exactly the two bits of a key',
  'set() turns on the two bits (the little-endian 16-bit words at bytes 0-1 and 2-3 of the key, modulo the number of bits) and changes no other bit; find() is true exactly when both bits are on, '
  'so a key once set is always found; new/default/clear have no bit on; size() is the cardinality formula on the number of zero bits; conversions keep every byte; no operation panics on any key or filter.',
  ['inputs', 'histories'], 'all filters (128 and 256 bytes), all keys',
  'Tests insert a few keys; an index computed modulo the wrong size or a wrong bit only misbehaves for some keys.',
  ['common/src/bloom_filter.rs'],
  [('bloom filter', 'common::bloom_filter::{BloomFilter128,BloomFilter256}')])

P('C19', 'Compact addresses are written and read octet by octet in network order',
  'write_address and write_socket_addr append, for every address, exactly its 4 or 16 octets followed (for a socket address) by its port in big-endian order; the readers return exactly the address those bytes '
  'denote and consume exactly them, and fail (without panicking) exactly when fewer bytes are left; so writing and reading back gives the same address; when the writer fails, its error is returned and nothing more is written; lower_bound returns the first index whose element is smaller than the value, or the length.',
  ['inputs'], 'all IPv4/IPv6 addresses and ports, all readers of every length, all writers and the points where they fail',
  'Tests cannot enumerate 2^128 addresses; swapped ports or truncated octets only show on asymmetric values.',
  ['dht/src/detail.rs'],
  [('compact addresses', 'dht::detail')])

P('C20', 'The saved DHT state restores every node, in order',
  'DhtState::save() writes, under node-id, nodes and nodes6 (each only when not empty), one byte string per entry in order, holding the id and address octets (and the big-endian port); '
  'DhtState::read() and extract_node_ids() rebuild exactly the well-formed entries of those lists in order, skip every other entry, accept a single 20-byte id (as localhost), never fail and never panic; clear() empties everything.',
  ['inputs', 'histories'], 'all states, all bencode values given to read()',
  'Tests do not cover lists of mixed, malformed or oversized entries, which come from disk or from other implementations.',
  ['dht/src/state.rs', 'dht/src/detail.rs'],
  [('state', 'dht::state::{DhtState,extract_node_ids}')])

P('C18', 'Kademlia distances are the XOR metric',
  'distance(a, b) is the bitwise XOR of the ids; distance_exp(a, b) is the index of the highest set bit of that XOR (0 for equal ids) and never underflows; min_distance_exp(target, ids) is the least '
  'distance exponent over a non-empty list of ids, of any length and in any order; none of them panics and each terminates.',
  ['inputs'], 'all 160-bit ids, all non-empty lists of ids',
  'The tests use single pairs of ids; equal ids, the order of a list and its length are never varied, and eviction and routing rest on the result.',
  ['dht/src/node.rs', 'common/src/sha1.rs'],
  [('distances', 'dht::node::{distance,distance_exp,min_distance_exp}')])

P('C35', 'Base32 decoding is exact and total',
  'For every byte string, base32_decode reads chunks of eight symbols (letters of either case, the digits 2 to 7, and 1 for I), gives five bytes for a whole chunk and the bytes its symbols before the padding cover for a short or padded one, '
  'and nothing at all when a character is not a symbol or a chunk starts with padding; it never panics and terminates.',
  ['inputs'], 'all byte strings of every length',
  'The tests decode the eight lengths of one word; padding in odd places, a last chunk of one symbol or one wrong shift for rare symbols are not among them.',
  ['src/str_utl.rs'],
  [('base32', 'torrent_rs::str_utl::base32_decode')])

P('C36', 'Percent decoding is exact and total',
  'For every byte string, unescape_bytes turns each `+` into a space, each `%` followed by two hex digits into that byte, keeps every other byte in order, and fails with InvalidEscapedString exactly when a `%` is '
  'not followed by two hex digits; unescape_string additionally fails exactly when the result is not UTF-8. Neither panics or reads past the end.',
  ['inputs'], 'all byte strings of every length',
  'The tests decode single strings; a `%` at the end of the input, mixed-case digits or bytes above 0x7f come from hostile magnet links.',
  ['src/str_utl.rs'],
  [('percent decoding', 'torrent_rs::str_utl::{unescape_bytes,unescape_string}')])

P('C37', 'Text helpers agree with their definitions on every byte string',
  'to_upper changes exactly the ASCII lower-case letters; is_digit and is_whitespace accept exactly their bytes; parse_int accepts exactly the texts that denote an isize; trim removes exactly the leading and trailing '
  'white space; split_string splits at the first separator outside a leading quoted part, and gives the whole and nothing without one. None of them panics and each terminates.',
  ['inputs'], 'all byte strings of every length, all separators',
  'The tests sample single strings; empty, all-white, unterminated-quote and non-ASCII inputs are what breaks slice arithmetic.',
  ['src/str_utl.rs'],
  [('text helpers', 'torrent_rs::str_utl::{to_upper,is_digit,is_whitespace,parse_int,trim,split_string}')])

P('C22', 'Announcing keeps the swarm within its limits, in order and counted',
  'For every store, info-hash, endpoint, name and seed flag, announce_peer adds a torrent only while fewer than max_torrents are kept; replaces the entry of a known endpoint (address and port) in place; otherwise inserts the '
  'peer at its place in the order (address, port) of its address family only while that list has fewer than max_peers entries; stores a name only when the torrent has none and then at most its first '
  '100 characters; counts each added torrent and peer once; touches nothing else; and never panics.',
  ['histories', 'configurations'], 'all stores (any number of torrents and peers), all settings, all announces',
  'Capacity and order are invariants of every history of announces; the tests announce a few peers to one torrent under the default limits.',
  ['dht/src/storage.rs'],
  [('announcing', 'dht::storage::DefaultDhtStorage::announce_peer')])

P('C24', 'Immutable items are stored under their key, and only the least important one is evicted',
  'put_immutable_item keeps the bytes given for a new key unchanged, never replaces the value of a known key, never lets the table exceed max_dht_items (a full table loses exactly an item of least importance: '
  'announcers/5 minus the least distance exponent to the own ids), records the announcer in the filter and counts it only if it was not there, and keeps the counter in step; get_immutable_item puts the decoded '
  'value under `v` exactly when the key is known, without changing the store; neither panics (given at least one own id and a dictionary to fill) and both terminate.',
  ['histories', 'configurations'], 'all stores, limits (0 included), items, targets and addresses',
  'The tests store one or two items below the limit: eviction order, overfull tables and undecodable items need particular histories.',
  ['dht/src/storage.rs'],
  [('immutable items', 'dht::storage::DefaultDhtStorage::{put_immutable_item,get_immutable_item}')])

P('C25', 'A mutable item only ever moves to a higher sequence number',
  'put_mutable_item replaces value, signature and sequence number of a known key together, and exactly when the new sequence number is greater; a new key is stored with exactly the given value, signature, sequence '
  'number, key and salt, evicting exactly an item of least importance when max_dht_items are kept (and nothing is stored when none may be kept); announcers are recorded once; the counter stays in step; no panic (given at '
  'least one own id), and it terminates.',
  ['histories', 'configurations'], 'all stores, limits, sequence numbers (i64), items and addresses',
  'A replayed old version, an equal sequence number or a full table needs a particular sequence of puts; the tests make one or two.',
  ['dht/src/storage.rs'],
  [('mutable items', 'dht::storage::DefaultDhtStorage::put_mutable_item')])

P('C26', 'Reading a mutable item returns exactly the stored version',
  'get_mutable_item_seq reports presence and the stored sequence number; get_mutable_item adds `seq` for every known key, and `v`, `sig` and `k` (the stored bytes, decoded for `v`) exactly when forced or when '
  'the requester names a sequence number of at least 0 below the stored one; an unknown key changes nothing and gives false; the store is never changed and neither panics (given a dictionary to fill).',
  ['inputs', 'histories'], 'all stores, targets and sequence numbers (i64)',
  'The tests read back single items; the boundary of the sequence comparison, negative numbers and undecodable values are not sampled.',
  ['dht/src/storage.rs'],
  [('reading mutable items', 'dht::storage::DefaultDhtStorage::{get_mutable_item,get_mutable_item_seq}')])

P('C28', 'New stores and items are empty, and bookkeeping changes only its own fields',
  'A new store is empty with zero counters and refers to the given settings; update_node_ids keeps exactly the given ids in order; reset zeroes all four counters; a new immutable or mutable item holds exactly the '
  'given value and otherwise zeroes; set_value makes the value exactly the given bytes, of any length; touch_item counts an address exactly when the filter does not hold it; peers are ordered by address, then port, '
  'consistently in both comparison traits; none of them panics.',
  ['inputs', 'histories'], 'all items, buffers of any length, addresses and id lists',
  'set_value takes a different path for equal and different lengths, and the order decides every binary search; tests cover neither systematically.',
  ['dht/src/storage.rs'],
  [('store bookkeeping', 'dht::storage::{DefaultDhtStorage,DhtImmutableItem,DhtMutableItem,PeerEntry,DhtStorageCounter}')])

P('C23', 'Peer lookups return only stored, eligible peers, within the limit',
  'For every store and request, get_peers lists only peers of the torrent and of the requester\'s address family, without seeds when asked, each at most once, in order, as compact addresses, and as many as the limit '
  '(a quarter of it for IPv6) and the eligible peers allow, for every outcome of its random choices; a scrape gives exactly the Bloom filters of seeds and of downloaders; the name is given when there is one; the reply tells '
  'whether the swarm is full for the requester; the store is not changed; it never panics (not even when it reaches the end of the list) and terminates.',
  ['inputs', 'histories', 'configurations'], 'all stores, settings, requests and random choices',
  'The selection is random and depends on the mix of seeds in the swarm: a test sees single outcomes on small swarms.',
  ['dht/src/storage.rs'],
  [('peer lookup', 'dht::storage::DefaultDhtStorage::get_peers')])

P('C03', 'Owned decoding accepts exactly one bencoded value and returns it',
  'For every byte string and every choice of limits, Value::decode_with_limits (and decode and parsing from text, which have no limits) returns the value that the input denotes '
  '- integers, byte strings of exactly the announced length, lists in order, dictionaries with UTF-8 keys (of equal keys the first counts) - when the input is exactly one complete value; '
  'otherwise the error of the first thing that is wrong: end of input, bad number, missing delimiter, odd or non-text keys, unexpected byte, a value after the end, more open containers than the depth limit or more values than the item limit.',
  ['inputs', 'configurations'], 'all byte strings, all depth and item limits (present or absent)',
  'The tests decode a few dozen literals; the interplay of the two stacks (nesting, empty containers, limits at their exact value, trailing bytes, duplicate keys) has unboundedly many cases.',
  ['bencode/src/value.rs', 'bencode/src/reader.rs'],
  [('decoding loop', 'bencode::value::Value::decode_with_limits')])

P('C07', 'Borrowed decoding agrees with owned decoding',
  'For every byte string and every choice of limits, ValueRef::decode_with_limits (and decode, without limits) follows the very grammar of owned decoding: it accepts the same inputs, with the same values '
  '- byte strings and keys being the slices of the input that hold them - and rejects the others with the same errors.',
  ['inputs', 'configurations'], 'all byte strings, all depth and item limits (present or absent)',
  'Two copies of the decoder exist; tests of one say nothing about the other, and a fix made in one only is not noticed by decoding a few literals.',
  ['bencode/src/value_ref.rs', 'bencode/src/reader.rs'],
  [('decoding loop', 'bencode::value_ref::ValueRef::decode_with_limits')])

P('C05', 'Encoding writes exactly the canonical bencode form',
  'For every value, encode (of owned and of borrowed values) writes exactly its canonical form and nothing else - `i<decimal>e`, `<length>:<bytes>`, `l`..`e` with the elements in order, `d`..`e` with the entries in key order - '
  'to_vec returns those bytes; both always terminate without panicking; and when the writer fails, encoding stops at that write and returns its error.',
  ['inputs', 'fault_sequences'], 'all values of any depth and size, all points at which a writer may fail',
  'Encoding uses its own work list instead of recursion; tests encode a few shallow values into a vector, which cannot fail.',
  ['bencode/src/value.rs', 'bencode/src/value_ref.rs'],
  [('encoding loop', 'bencode::value::Value::encode, bencode::value_ref::ValueRef::encode')])

P('C08', 'Converting between borrowed and owned values keeps the value',
  'ValueRef::to_owned and Value::as_ref give, for every value, the value of the same kind with the same integers, bytes, elements in the same order and entries under the same keys; neither panics '
  '(apart from stack exhaustion on very deep values).',
  ['inputs'], 'all values',
  'The tests convert no nested values; an element dropped, reordered or re-keyed at one level corrupts only some values.',
  ['bencode/src/lib.rs'],
  [('conversions', 'bencode::value_ref::ValueRef::to_owned, bencode::value::Value::as_ref')])

P('C30', 'Torrent files are parsed exactly, within the limits, and cannot name files elsewhere',
  'Torrent::parse accepts exactly the byte strings of at most 6 000 000 bytes that decode, within 100 levels and 2 000 000 items, to a dictionary with an announce URL and an info dictionary that has a name, '
  'a piece length, pieces made of whole 20-byte digests (at most 0x100000) and exactly one of a length and a list of files with lengths and paths of at least one segment; lengths are not negative, and names and path segments are plain file names '
  '(not empty, not `.` or `..`, no separators or NUL); what it returns holds exactly those fields, files in order; it never panics and terminates.',
  ['inputs'], 'all byte strings',
  'The only test parses one real torrent; a hostile torrent is any other byte string, and a missing check shows only on the one field it guards.',
  ['src/torrent.rs', 'src/info.rs'],
  [('parser', 'torrent_rs::torrent::Torrent::parse'), ('limits', 'torrent_rs::info::TorrentLimits')])

P('C33', 'Magnet links are read exactly, without panics or endless loops',
  'Reading a magnet link accepts only magnet URLs with an info hash (`xt=urn:btih:` and 40 hex or 32 base32 digits; the last one counts, a malformed one is an error), and adds to the parameters, in the order given, every '
  'tracker (one tier each), web seed, peer address and DHT node, the name, and the chosen files of at most 10 000 (`so=`, ignored when it has other characters than digits, commas and dashes; impossible ranges are skipped); '
  'bad peer addresses, ports and numbers are errors. Reading neither panics nor runs forever, for any text; the link printed for parameters is `magnet:?xt=urn:btih:` and the hash in hex.',
  ['inputs'], 'all texts; base32 and the URL library are taken as given (the pairs of the query are any finite list)',
  'The tests parse a dozen links; a magnet link comes from a web page, and one bad digit or one comma in the wrong place used to panic or to hang the client.',
  ['src/magnet_uri.rs', 'src/params.rs', 'src/str_utl.rs'],
  [('links', 'torrent_rs::magnet_uri::{parse_magnet_uri,MagnetUri}')])

P('C40', 'Printed forms say exactly what is stored',
  'Every hash prints as its 40 lower-case hex digits and nothing else, and every bencode value, owned or borrowed, prints as its encoding (bytes that are not UTF-8 replaced); printing never panics, and when the formatter fails (these and the magnet link of torrent parameters) its error is the result and nothing more is written.',
  ['inputs'], 'all hashes and all values',
  'No test prints a hash or a value with bytes that are not UTF-8; logs, magnet links and file names are made of these texts.',
  ['common/src/sha1.rs', 'bencode/src/value.rs', 'bencode/src/value_ref.rs'],
  [('printing', 'common::sha1::Sha1Hash, bencode::value::Value, bencode::value_ref::ValueRef (Display)')])

P('C41', 'Every flag of a flag set has a bit of its own',
  'In every flag set (torrent, observer, message description and announce flags) each flag is exactly one bit and no two flags share one, so that setting, clearing or testing a flag never touches another; '
  'an observer has a short timeout exactly when SHORT_TIMEOUT is among its flags.',
  ['configurations'], 'all flags of all flag sets, all combinations of observer flags',
  'A test that uses one flag at a time cannot see that two flags are the same bit.',
  ['src/flags.rs', 'dht/src/observer.rs', 'dht/src/msg.rs', 'dht/src/announce.rs'],
  [('flag sets', 'torrent_rs::flags::TorrentFlags, dht::observer::ObserverFlags')])

P('C42', 'Equality, order and copies of bencode values are structural',
  'Two bencode values (owned or borrowed) are equal exactly when they are of the same kind with equal payloads - the same integer, the same bytes, equal elements in the same order, equal keys with equal values; '
  'they are ordered by kind (integer, string, list, dictionary) and then by payload; a copy holds exactly what the original holds; none of these panics (apart from stack exhaustion on very deep values).',
  ['inputs'], 'all pairs of values',
  'Tests compare decoded literals; an equality that overlooks a kind, a length or the later elements makes them pass all the more easily.',
  ['bencode/src/value.rs', 'bencode/src/value_ref.rs'],
  [('comparisons and copies', 'bencode::value::Value, bencode::value_ref::ValueRef: PartialEq, PartialOrd, Clone')])

P('C02', 'What was encoded decodes to the same value',
  'For every value, decoding (owned or borrowed, without limits) the bytes that encode writes gives a value equal to the one encoded, whatever integers, byte strings, keys and nesting it holds.',
  ['inputs'], 'all values (apart from stack exhaustion on very deep ones)',
  'Tests round-trip a few values; a length counted in characters, a sign, an empty string at the end or a key order breaks it for a rare value only.',
  ['bencode/src/value.rs', 'bencode/src/value_ref.rs', 'bencode/src/reader.rs'],
  [('encoders', 'bencode::value::Value::encode, bencode::value_ref::ValueRef::encode'), ('decoders', 'bencode::value::Value::decode, bencode::value_ref::ValueRef::decode')],
  note=NOTE + ' Both halves are proved for all inputs against definitions of the same grammar; that the two definitions are inverse to each other is an argument on paper (DESIGN.md).')

P('C04', 'No announced length makes a parser ask for memory',
  'While bencode, torrent files, magnet links, escaped text or saved state are read, no single request for memory is for more elements than something already in memory holds, or than a small constant: '
  'a length or an index written in the input never sizes a request.',
  ['inputs'], 'all inputs of all parsers',
  'An input of ten bytes that makes a parser reserve terabytes decodes without complaint where memory is overcommitted, so tests pass.',
  ['bencode/src/reader.rs', 'bencode/src/value.rs', 'bencode/src/value_ref.rs', 'src/torrent.rs', 'src/magnet_uri.rs', 'src/str_utl.rs', 'dht/src/state.rs'],
  [('parsers', 'bencode::value::Value::decode_with_limits, torrent_rs::torrent::Torrent::parse, torrent_rs::magnet_uri::parse_magnet_uri')])

P('C27', 'Over any history the store stays within its limits and its counters tell its sizes',
  'Whatever sequence of operations a store goes through, it never keeps more than max_torrents torrents, nor more than max_dht_items immutable or mutable items, and the counters of torrents, '
  'immutable and mutable items always equal the number of entries in the tables.',
  ['histories', 'configurations'], 'all sequences of announcements, puts and changes of node ids (with at least one id at each put), all settings',
  'A leak or a drift of one per eviction shows only after a particular history; tests run none.',
  ['dht/src/storage.rs'],
  [('operations that change a store', 'dht::storage::DefaultDhtStorage')])

P('C43', 'Over any history peer lists stay in order, free of duplicates and within their limit, and the counter tells their size',
  'Whatever sequence of operations a store goes through, each torrent keeps its IPv4 and its IPv6 peers in strictly increasing order of (address, port), so each endpoint at most once, never more than max_peers of '
  'either, never a peer of the other family; the counter of peers always equals the number of peers in all lists; and no torrent disappears with its peers.',
  ['histories', 'configurations'], 'all sequences of announcements, puts and changes of node ids, all settings, all endpoints (IPv6 endpoints that differ only in flow label or scope included)',
  'A duplicate or a misplaced peer breaks the binary search of later announcements: it shows only after a history that inserts, finds and inserts again.',
  ['dht/src/storage.rs'],
  [('operations that change a store', 'dht::storage::DefaultDhtStorage'), ('order of peers', 'dht::storage::PeerEntry::cmp')])

P('C44', 'Over any history items keep their content, and versions only go up',
  'Whatever sequence of operations a store goes through, as long as an immutable item is kept its value is the one it was first stored with; as long as a mutable item is kept its sequence number never decreases, '
  'its value and signature change only together with a greater sequence number, and its key and salt never change; the number of announcers of a kept item never decreases; an operation removes at most one item, '
  'only from a full table and only to make room for another; operations on items leave torrents and the other table as they were.',
  ['histories', 'configurations'], 'all sequences of announcements, puts and changes of node ids (with at least one id at each put), all settings, all sequence numbers (i64)',
  'A rollback needs a put with an old or equal sequence number at the right moment of a history; tests put each item once.',
  ['dht/src/storage.rs'],
  [('operations that change a store', 'dht::storage::DefaultDhtStorage')])

P('C16', 'Key material keeps every byte and seeds are fully random',
  'Default public keys, secret keys and signatures are all zero; clones and dereferences of them give exactly the stored 32 or 64 bytes; create_seed and fill_bytes leave in every byte of the buffer, of any length, '
  'a byte drawn from the random generator for that buffer; none of them panics.',
  ['inputs'], 'all contents, buffers of any length and all outcomes of the generator',
  'A seed that is only partly random looks random to any test.',
  ['common/src/types.rs', 'common/src/ed25519.rs', 'common/src/random.rs'],
  [('key types', 'common::types::{PublicKey,SecretKey,Signature}'), ('seeds', 'common::ed25519::create_seed, common::random::fill_bytes')])

P('C17', 'Clamped and random numbers stay in their range',
  'clamp(v, lo, hi) is lo below lo, hi above hi and v otherwise for every v and lo <= hi; random_usize(max) is a number the generator drew from exactly 0..max for every max above zero; neither panics.',
  ['inputs'], 'all integers, all maxima above zero, all outcomes of the generator',
  'An off-by-one at the bound shows up once in max draws.',
  ['common/src/lib.rs', 'common/src/random.rs'],
  [('clamp', 'common::clamp'), ('random numbers', 'common::random::random_usize')])

P('C29', 'A DHT message is accepted exactly when it has every described key',
  'verify_message_impl accepts a message exactly when it is a dictionary that has every described key, and then the result holds, in the order of the description, the value of each key; it never panics when the result has '
  'one place per description, and terminates.',
  ['inputs'], 'all messages and descriptions, of any length',
  'No test covers it; a skipped key or a value in the wrong place shows only for that key.',
  ['dht/src/msg.rs'],
  [('message check', 'dht::msg::verify_message_impl')])

P('C38', 'A new torrent starts empty, paused and managed',
  'The default torrent parameters are empty and zero in every field except the flags, which are exactly update_subscribe, auto_managed, paused, apply_ip_filter and need_save_resume, and the time of addition, which is now; '
  'a new file storage has no pieces and is not valid, and a storage is valid exactly when its piece length is not zero.',
  ['configurations', 'inputs'], 'every field of every default; all storages',
  'The tests construct a default and look at one or two of its forty fields.',
  ['src/flags.rs', 'src/params.rs', 'src/info.rs', 'src/fs.rs'],
  [('defaults', 'torrent_rs::params::TorrentParams, torrent_rs::flags::TorrentFlags, torrent_rs::fs::FileStorage, torrent_rs::info::TorrentInfo')])

P('C39', 'Errors keep their meaning when they are converted',
  'A bencode error becomes an std::io error of kind UnexpectedEof at the end of input, Other for I/O and InvalidData for everything else; a failed parse of a URL, an address or a number becomes InvalidUrl, ParseEndpoint or ParseInt.',
  ['inputs'], 'all error values',
  'No test converts errors; callers decide by kind whether to wait for more input.',
  ['bencode/src/error.rs', 'src/error.rs'],
  [('conversions', 'bencode::error::Error, torrent_rs::error::Error')])


P('C31', 'The libraries have no effects besides their results',
  'No function of the four libraries touches files, the network, the environment, processes, threads, the standard streams or state that outlives the values it is given (no static that can change, no thread-local state); '
  'what is read and written is the arguments, including the reader or writer passed in. Only the storage of the DHT and the defaults of torrent parameters read the clock, only common::random, key generation and the storage draw random numbers, '
  'only the storage may depend on the order of a hash table; every other function is a function of its arguments alone: called twice with equal arguments it does the same, in any process, on any thread.',
  ['inputs', 'schedules', 'configurations'], 'all functions of the libraries, all inputs, environments and interleavings with other callers',
  'A test runs in one process, with one environment, and does not see what a function leaves behind or what else it looked at.',
  ['bencode/src', 'common/src', 'dht/src', 'src'],
  [('all functions', 'bencode, common, dht, torrent_rs (the two binaries, which print, are not libraries)')],
  tech='effect analysis over the call graph of the type-checked MIR')

P('C32', 'Safe code cannot reach undefined behaviour through the libraries',
  'No sequence of safe calls into the four libraries has undefined behaviour: there is no operation that only unsafe code can do (call of an unsafe function, dereference of a raw pointer, field of a union, mutable static, transmute, foreign item, implementation of an unsafe trait by hand), '
  'or its conditions (bounds, initialised and valid memory, a pointer no other borrow has invalidated, valid UTF-8, unreachable code really unreachable) hold for every input.',
  ['inputs', 'histories'], 'all inputs of all public functions that reach such an operation',
  'Undefined behaviour need not show in a test at all, and shows only for the inputs that reach it.',
  ['bencode/src', 'common/src', 'dht/src', 'src'],
  [('all functions', 'bencode, common, dht, torrent_rs; at the pinned commit common::sha1 ShlAssign and ShrAssign copied through raw pointers')],
  tech='enumeration of unsafe operations in the MIR, each discharged by abstract interpretation')

P('C34', 'Every public type can be moved to and shared with other threads',
  'Every public type of the four libraries (values, readers, hashes, keys, settings, states, stores, messages, torrents and their parameters, errors) is Send and Sync, as the compiler derives it from the fields and not by a promise written by hand.',
  ['schedules'], 'all types and all ways to use them from several threads',
  'A unit test cannot fail because a type lost Send or Sync; a program that spawns threads stops compiling.',
  ['bencode/src', 'common/src', 'dht/src', 'src'],
  [('all public types', 'bencode, common, dht, torrent_rs')],
  tech='trait obligations decided by the type checker for every public type')


def N(id, title, statement, over, forall, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, reason=reason))


N('C51', 'Stored peers and items expire, and stored hashes can be sampled',
  'Peers and items that were not announced again within their lifetime disappear from the store, the counters reflect it, and a sample of the stored info-hashes is given on request, refreshed at the configured interval.',
  ['histories', 'inputs'], 'all histories of announcements, ticks and clock values',
  'Tests cannot sample every history of announcements and clock values.',
  ['dht/src/storage.rs'], [('expiry and sampling', 'dht::storage::DefaultDhtStorage tick, counters, get_infohashes_sample')],
  'The three functions are stubs (unimplemented!()) at this commit: there is no behaviour to decide.')

N('C52', 'Searches of the DHT converge',
  'A search asks ever closer nodes, never the same one twice, holds at most the configured number of requests in flight, and ends with the closest nodes that answered.',
  ['histories', 'schedules'], 'all sets of nodes and orders of answers',
  'Orders of answers are too many to sample.',
  ['dht/src/find_data.rs', 'dht/src/lib.rs'], [('search', 'dht::find_data::FindData')],
  'FindData is a stub (every method is unimplemented!()) and no traversal drives it at this commit.')

N('C53', 'Generated key pairs are fresh and valid',
  'create_keypair returns a fresh random ed25519 secret key together with the public key that belongs to it.',
  ['inputs'], 'all seeds drawn',
  'Tests would look at a few seeds only.',
  ['common/src/ed25519.rs'], [('key pairs', 'common::ed25519::create_keypair')],
  'The function is a stub at this commit (it returns all-zero keys and has a note to be finished); what the properties of the key types are is decided under C16.')

N('C54', 'Endpoints in text form are read exactly',
  'parse_endpoint accepts exactly the texts `address:port` and `[address]:port` and returns that endpoint.',
  ['inputs'], 'all texts',
  'Tests sample a few texts.',
  ['src/str_utl.rs'], [('endpoints', 'torrent_rs::str_utl::parse_endpoint')],
  'The function ends in unimplemented!() for every input at this commit: there is no result to decide.')

N('C55', 'Random choices and Bloom filters have the intended statistics',
  'Random seeds, samples of peers and clamped random numbers are uniform, and the false positive rate of a filled Bloom filter stays near its theoretical value.',
  ['inputs', 'configurations'], 'all fill levels and long-run frequencies',
  'Frequencies need long runs, not examples.',
  ['common/src/random.rs', 'common/src/bloom_filter.rs', 'dht/src/storage.rs'], [('statistics', 'common::random, common::bloom_filter')],
  'Frequencies are run-time quantities of a probability distribution; no sound static argument in reach bounds them. That draws are taken from the full range and used byte for byte is decided under C16, C17 and C23.')
