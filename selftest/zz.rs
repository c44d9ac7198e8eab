//! Engine self-test. `*_ok` never panics, `*_bad` can: the analysis must agree.
#![allow(missing_docs)]
pub fn repeat_ok(s: &str, n: usize) -> String { let k = n.min(10); let t = "0".repeat(k); let mut r = s.to_string(); r.push_str(&t); r }
pub fn repeat_len_ok(n: usize) -> char { let k = n.min(10) + 1; let t = "0".repeat(k); t.chars().next().unwrap() }
pub fn repeat_len_bad(n: usize) -> char { let k = n.min(10); let t = "0".repeat(k); t.chars().next().unwrap() }
pub fn split_at_ok(s: &str) -> &str { if s.is_char_boundary(2) { s.split_at(2).1 } else { s } }
pub fn split_at_bad(s: &str) -> &str { if s.len() > 2 { s.split_at(2).1 } else { s } }
pub fn split_off_ok(mut s: String) -> String { if s.starts_with("ab") { s.split_off(2) } else { s } }
pub fn split_off_bad(mut s: String) -> String { if s.len() > 4 { s.split_off(2) } else { s } }
pub fn remove_ok(mut s: String) -> char { if s.is_empty() { 'x' } else { s.remove(0) } }
pub fn remove_bad(mut s: String) -> char { s.remove(0) }
pub fn remove1_bad(mut s: String) -> char { if s.len() > 2 { s.remove(1) } else { 'x' } }
pub fn insert_ok(mut s: String) -> String { s.insert(0, 'x'); let n = s.len(); s.insert_str(n, "ab"); s }
pub fn insert_bad(mut s: String) -> String { if s.len() > 2 { s.insert(1, 'x'); } s }
pub fn truncate_ok(mut s: String) -> String { if s.is_ascii() { s.truncate(3); } s }
pub fn truncate_bad(mut s: String) -> String { s.truncate(3); s }
pub fn drain_ok(mut s: String) -> String { if s.starts_with('K') { s.drain(..1); } s }
pub fn drain_bad(mut s: String) -> String { if !s.is_empty() { s.drain(..1); } s }
pub fn retain_ok(mut s: String) -> char { s.retain(|c| c.is_ascii_uppercase()); s.push('A'); let b = s.as_bytes()[0]; b as char }
pub fn retain_bad(mut s: String) -> u8 { s.push('A'); s.retain(|c| c.is_ascii_lowercase()); s.as_bytes()[0] }
pub fn strip_ok(s: &str) -> String { match s.strip_prefix("KN") { Some(r) => format!("N{r}"), None => s.to_string() } }
pub fn split_once_ok(s: &str) -> &str { match s.split_once('=') { Some((_, b)) => b, None => s } }
pub fn find_ok(s: &str) -> &str { match s.find('e') { Some(i) => &s[i + 1..], None => s } }
pub fn find_bad(s: &str) -> &str { match s.find(|c: char| c.is_alphabetic()) { Some(i) => &s[i + 1..], None => s } }
pub fn rfind_ok(s: &str) -> &str { match s.rfind("ab") { Some(i) => &s[..i + 2], None => s } }
pub fn get_ok(s: &str) -> &str { s.get(..2).unwrap_or(s) }
pub fn get_bad(s: &str) -> &str { s.get(..2).unwrap() }
pub fn lines_ok(s: &str) -> usize { let mut n = 0; for l in s.lines() { if !l.is_empty() { n += l.len() } } n }
pub fn split_ok(s: &str) -> usize { s.split(' ').filter(|p| !p.is_empty()).map(|p| p.chars().count()).max().unwrap_or(0) }
pub fn split_first_ok(s: &str) -> &str { s.split(' ').next().unwrap() }
pub fn split_ws_bad(s: &str) -> &str { s.split_whitespace().next().unwrap() }
pub fn rev_ok(s: &str) -> String { s.chars().rev().collect() }
pub fn rev_bad(s: &str) -> char { s.chars().rev().next().unwrap() }
pub fn trim_ok(s: &str) -> char { let t = s.trim(); if t.is_empty() { 'x' } else { t.chars().last().unwrap() } }
pub fn trim_bad(s: &str) -> char { if s.is_empty() { 'x' } else { s.trim().chars().last().unwrap() } }
pub fn trim_matches_ok(s: &str) -> &str { s.trim_start_matches('0').trim_end_matches("ab").trim_matches(|c: char| c == '-') }
pub fn bytes_ok(s: &str) -> usize { s.bytes().filter(|b| *b == b'a').count() }
pub fn bytes_idx_ok(s: &str) -> u8 { let b = s.as_bytes(); if b.len() > 3 { b[3] } else { 0 } }
pub fn bytes_idx_bad(s: &str) -> u8 { let b = s.as_bytes(); if b.len() > 3 { b[4] } else { 0 } }
pub fn utf8_ok(s: &str) -> String { String::from_utf8(s.as_bytes().to_vec()).unwrap_or_default() }
pub fn utf8_bad(s: &str) -> String { let b: Vec<u8> = s.bytes().take(3).collect(); String::from_utf8(b).unwrap() }
pub fn digit_ok(c: char) -> u32 { c.to_digit(10).unwrap_or(0) }
pub fn digit_bad(c: char) -> u32 { c.to_digit(10).unwrap() }
pub fn digit_in_ok(c: char) -> u32 { if c.is_ascii_digit() { c.to_digit(10).unwrap() } else { 0 } }
pub fn from_digit_ok(n: u32) -> char { char::from_digit(n % 10, 10).unwrap() }
pub fn from_digit_bad(n: u32) -> char { char::from_digit(n % 11, 10).unwrap() }
pub fn from_u32_bad(n: u32) -> char { char::from_u32(n).unwrap() }
pub fn vec_first_ok(v: &[char]) -> char { match v.first() { Some(c) => *c, None => 'x' } }
pub fn vec_last_bad(v: &[char]) -> char { *v.last().unwrap() }
pub fn windows_ok(v: &[char]) -> usize { v.windows(2).filter(|w| w[0] == w[1]).count() }
pub fn windows_bad(v: &[char]) -> usize { v.windows(2).filter(|w| w[0] == w[2]).count() }
pub fn chunks_ok(v: &[char]) -> usize { v.chunks(2).filter(|w| w[0] == 'a').count() }
pub fn chunks_bad(v: &[char]) -> usize { v.chunks(2).filter(|w| w[1] == 'a').count() }
pub fn chunks_exact_ok(v: &[char]) -> usize { v.chunks_exact(2).filter(|w| w[1] == 'a').count() }
pub fn position_ok(v: &[char]) -> char { match v.iter().position(|c| *c == 'a') { Some(i) => v[i], None => 'x' } }
pub fn position_bad(v: &[char]) -> char { match v.iter().position(|c| *c == 'a') { Some(i) => v[i + 1], None => 'x' } }
pub fn step_ok(v: &[char]) -> usize { v.iter().step_by(2).count() }
pub fn step_bad(v: &[char], n: usize) -> usize { v.iter().step_by(n).count() }
pub fn insert_vec_ok(mut v: Vec<char>) -> Vec<char> { v.insert(0, 'a'); v }
pub fn insert_vec_bad(mut v: Vec<char>) -> Vec<char> { v.insert(1, 'a'); v }
pub fn remove_vec_bad(mut v: Vec<char>) -> char { v.remove(0) }
pub fn swap_ok(mut v: Vec<char>) -> Vec<char> { if v.len() > 1 { v.swap(0, 1); } v }
pub fn swap_bad(mut v: Vec<char>) -> Vec<char> { v.swap(0, 1); v }
pub fn dedup_ok(mut v: Vec<char>) -> usize { v.dedup(); v.len() }
pub fn dedup_first_ok(s: &str) -> char { let mut v: Vec<char> = s.chars().collect(); v.push('a'); v.dedup(); v[0] }
pub fn retain_vec_ok(mut v: Vec<char>) -> usize { v.retain(|c| *c != 'a'); v.len() }
pub fn retain_vec_bad(mut v: Vec<char>) -> char { v.push('b'); v.retain(|c| *c != 'a'); v[0] }
pub fn sort_ok(mut v: Vec<char>) -> usize { v.sort(); v.sort_by(|a, b| b.cmp(a)); v.sort_by_key(|c| *c as u32); v.sort_unstable(); v.len() }
pub fn extend_slice_ok(v: &[char]) -> char { let mut w = vec!['a']; w.extend_from_slice(v); w[0] }
pub fn concat_ok(v: &[String]) -> usize { v.concat().len() + v.join("|").len() }
pub fn resize_ok(mut v: Vec<char>) -> char { v.resize(4, '0'); v[3] }
pub fn resize_bad(mut v: Vec<char>) -> char { v.resize(4, '0'); v[4] }
pub fn truncate_vec_bad(mut v: Vec<char>) -> char { v.push('a'); v.truncate(1); v[1] }
pub fn take_while_ok(s: &str) -> String { s.chars().take_while(|c| c.is_alphabetic()).collect() }
pub fn skip_while_ok(s: &str) -> String { s.chars().skip_while(|c| c.is_whitespace()).collect() }
pub fn filter_map_ok(s: &str) -> String { s.chars().filter_map(|c| if c == 'a' { None } else { Some(c.to_ascii_uppercase()) }).collect() }
pub fn flat_map_ok(s: &str) -> String { s.chars().flat_map(|c| c.to_uppercase()).collect() }
pub fn map_while_ok(s: &str) -> usize { s.chars().map_while(|c| c.to_digit(10)).count() }
pub fn scan_ok(s: &str) -> usize { s.chars().scan(0usize, |a, _| { *a += 1; Some(*a) }).count() }
pub fn fold_ok(s: &str) -> String { s.chars().fold(String::new(), |mut a, c| { a.push(c); a }) }
pub fn sum_ok(s: &str) -> usize { s.chars().map(|c| c.len_utf8()).sum() }
pub fn minmax_ok(s: &str) -> char { s.chars().max().unwrap_or('a') }
pub fn minmax_bad(s: &str) -> char { s.chars().min().unwrap() }
pub fn partition_ok(s: &str) -> usize { let (a, b): (String, String) = s.chars().partition(|c| c.is_alphabetic()); a.len() + b.len() }
pub fn unzip_ok(s: &str) -> usize { let (a, b): (Vec<usize>, Vec<char>) = s.char_indices().unzip(); a.len() + b.len() }
pub fn zip_ok(a: &str, b: &str) -> usize { a.chars().zip(b.chars()).filter(|(x, y)| x == y).count() }
pub fn peek_ok(s: &str) -> usize { let mut it = s.chars().peekable(); let mut n = 0; while let Some(c) = it.next() { if it.peek() == Some(&c) { it.next(); } n += 1; } n }
pub fn next_if_ok(s: &str) -> usize { let mut it = s.chars().peekable(); let mut n = 0; while it.next().is_some() { while it.next_if_eq(&'a').is_some() { n += 1; } if it.next_if(|c| *c == 'b').is_some() { n += 1; } } n }
pub fn last_ok(s: &str) -> char { s.chars().last().unwrap_or('a') }
pub fn nth_back_ok(s: &str) -> char { s.chars().nth_back(1).unwrap_or('a') }
pub fn char_indices_ok(s: &str) -> &str { for (i, c) in s.char_indices() { if c == 'x' { return &s[i..]; } } s }
pub fn char_indices_len_ok(s: &str) -> &str { for (i, c) in s.char_indices() { if c.is_alphabetic() { return &s[i + c.len_utf8()..]; } } s }
pub fn char_indices_bad(s: &str) -> &str { for (i, c) in s.char_indices() { if c.is_alphabetic() { return &s[i + 1..]; } } s }
pub fn ascii_upper_ok(s: &str) -> String { let mut t = s.to_ascii_uppercase(); t.make_ascii_lowercase(); t }
pub fn eq_ic_ok(a: &str, b: &str) -> bool { a.eq_ignore_ascii_case(b) }
pub fn parse_ok(s: &str) -> usize { s.parse::<usize>().unwrap_or(0) }
pub fn parse_bad(s: &str) -> usize { s.parse::<usize>().unwrap() }
pub fn sub_ok(a: usize, b: usize) -> usize { if a > b { a - b } else { b - a } }
pub fn sub_bad(a: usize, b: usize) -> usize { a - b }
pub fn mul_bad(a: usize, b: usize) -> usize { a * b }
pub fn div_ok(a: usize, b: usize) -> usize { if b != 0 { a / b } else { 0 } }
pub fn div_bad(a: usize, b: usize) -> usize { a / b }
pub fn rem_bad(a: usize, b: usize) -> usize { a % b }
pub fn add_bad(a: u8, b: u8) -> u8 { a + b }
pub fn shl_bad(a: u32, b: u32) -> u32 { a << b }
pub fn cast_ok(c: char) -> u8 { let i = c as u32; if (65..91).contains(&i) { (i - 65) as u8 } else { 0 } }
pub fn cast_bad(c: char) -> u8 { c as u8 - b'A' }
pub fn array_ok(c: char) -> char { const T: [char; 26] = ['a'; 26]; if c.is_ascii_uppercase() { T[c as usize - 65] } else { c } }
pub fn array_bad(c: char) -> char { const T: [char; 26] = ['a'; 26]; if c.is_uppercase() { T[c as usize - 65] } else { c } }
pub fn array_low_bad(c: char) -> char { const T: [char; 26] = ['a'; 26]; if c.is_ascii_alphabetic() { T[c as usize - 65] } else { c } }
pub fn try_into_ok(s: &str) -> usize { let r: Result<[char; 3], _> = s.chars().collect::<Vec<char>>().try_into(); match r { Ok(a) => a.len(), Err(v) => v.len() } }
pub fn try_into_bad(s: &str) -> [char; 3] { s.chars().collect::<Vec<char>>().try_into().unwrap() }
pub fn unreachable_bad(s: &str) -> usize { match s.len() { 0 => 1, 1..=100 => 2, _ => unreachable!() } }
pub fn expect_bad(s: &str) -> char { s.chars().next().expect("a char") }
pub fn assert_bad(s: &str) -> usize { assert!(!s.is_empty()); 1 }
pub fn debug_assert_bad(s: &str) -> usize { debug_assert!(s.len() < 100); 1 }
pub fn slice_ok(s: &str) -> usize { let v: Vec<char> = s.chars().collect(); if v.len() >= 3 { v[1..3].len() } else { 0 } }
pub fn slice_bad(s: &str) -> usize { let v: Vec<char> = s.chars().collect(); if v.len() >= 2 { v[1..3].len() } else { 0 } }
pub fn split_at_slice_bad(v: &[char]) -> usize { v.split_at(1).0.len() }
pub fn split_first_slice_ok(v: &[char]) -> usize { match v.split_first() { Some((_, r)) => r.len(), None => 0 } }
pub fn slice_pattern_ok(v: &[char]) -> usize { match v { [a, b, ..] if a == b => 2, [.., z] if *z == 'a' => 1, [] => 0, _ => 3 } }
pub fn starts_slice_ok(v: &[char]) -> char { if v.starts_with(&['a', 'b']) { v[1] } else { 'x' } }
pub fn contains_ok(s: &str) -> bool { ["ab", "cd"].contains(&s) || ['a', 'b'].iter().any(|c| s.contains(*c)) || s.contains(&['x', 'y'][..]) }
pub fn copy_bad(v: &[char]) -> [char; 2] { let mut a = ['0'; 2]; a.copy_from_slice(v); a }
pub fn cow_ok(s: &str) -> usize { let c: std::borrow::Cow<str> = if s.is_empty() { "x".into() } else { s.to_string().into() }; c.len() }
pub fn replace_range_ok(mut s: String) -> String { if s.ends_with("ie") { let n = s.len(); s.replace_range(n - 2.., "y"); } s }
pub fn replace_range_bad(mut s: String) -> String { if s.len() > 2 { let n = s.len(); s.replace_range(n - 2.., "y"); } s }
pub fn format_ok(s: &str, n: usize) -> String { format!("{s:0<4}{n:>3}") }
pub fn btree_ok(s: &str) -> usize { let mut m = std::collections::BTreeMap::new(); for c in s.chars() { *m.entry(c).or_insert(0usize) += 1; } m.values().copied().max().unwrap_or(0) }
pub fn map_index_bad(s: &str) -> usize { let mut m = std::collections::BTreeMap::new(); m.insert('a', 1usize); m[&s.chars().next().unwrap_or('a')] }
pub fn hash_ok(s: &str) -> usize { let mut m = std::collections::HashMap::new(); for c in s.chars() { m.insert(c, c.len_utf8()); } m.get(&'a').copied().unwrap_or(0) }
pub fn hash_bad(s: &str) -> usize { let mut m = std::collections::HashMap::new(); for c in s.chars() { m.insert(c, 1usize); } m[&'a'] }
pub fn set_ok(s: &str) -> usize { let m: std::collections::HashSet<char> = s.chars().collect(); m.len() }
pub fn deque_ok(s: &str) -> usize { let mut q: std::collections::VecDeque<char> = s.chars().collect(); let mut n = 0; while let Some(c) = q.pop_front() { n += c.len_utf8(); } n }
pub fn rc_bad(s: &str) -> usize { let c = std::cell::RefCell::new(0); let a = c.borrow_mut(); let b = c.borrow_mut(); *a + *b + s.len() }
pub fn rec_ok(n: usize) -> usize { if n == 0 { 0 } else if n > 3 { 1 } else { rec_ok(n - 1) } }
pub fn capacity_ok(s: &str) -> usize { let mut v: Vec<char> = Vec::with_capacity(s.len()); v.reserve(4); v.push('a'); v.capacity() }
pub fn sat_ok(s: &str) -> char { let n = s.chars().count(); let v: Vec<char> = s.chars().collect(); let k = n.saturating_sub(1); if n > 0 { v[k] } else { 'x' } }
pub fn sat_bad(s: &str) -> char { let n = s.chars().count(); let v: Vec<char> = s.chars().collect(); let k = n.saturating_sub(1); v[k] }
pub fn cmp_ok(a: &str, b: &str) -> usize { match a.cmp(b) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, _ => 2 } }
pub fn array_from_fn_ok(s: &str) -> usize { let a: [usize; 3] = std::array::from_fn(|i| i + s.len().min(5)); a[2] }
pub fn successors_ok(n: usize) -> usize { std::iter::successors(Some(n), |x| if *x > 1 { Some(x / 2) } else { None }).count() }
pub fn repeat_take_ok(n: usize) -> String { std::iter::repeat('0').take(n.min(8)).collect() }
pub fn repeat_n_ok(n: usize) -> String { std::iter::repeat_n('0', n.min(8)).collect() }
pub fn chain_once_ok(s: &str) -> String { std::iter::once('a').chain(s.chars()).collect() }
pub fn chain_once_first_ok(s: &str) -> char { let t: String = std::iter::once('a').chain(s.chars()).collect(); t.chars().next().unwrap() }
pub fn let_else_ok(s: &str) -> char { let Some(c) = s.chars().next() else { return 'x' }; c }
pub fn bool_then_ok(s: &str) -> Option<char> { (!s.is_empty()).then(|| s.chars().next().unwrap()) }
pub fn map_or_ok(s: &str) -> bool { s.chars().next().map_or(false, |c| c == 'a') && s.chars().next().is_some_and(|c| c.is_alphabetic()) }
pub fn zip3_ok(s: &str) -> usize { s.chars().zip(s.chars().skip(1)).filter(|(a, b)| a == b).count() }
pub fn iter_rev_idx_ok(v: &[char]) -> char { for i in (0..v.len()).rev() { if v[i] == 'a' { return v[i]; } } 'x' }
pub fn iter_idx_bad(v: &[char]) -> char { for i in 0..v.len() { if v[i] == v[i + 1] { return v[i]; } } 'x' }
pub fn iter_idx_ok(v: &[char]) -> char { for i in 1..v.len() { if v[i] == v[i - 1] { return v[i]; } } 'x' }
pub fn while_idx_ok(s: &str) -> usize { let v: Vec<char> = s.chars().collect(); let mut i = 0; let mut n = 0; while i < v.len() { if i + 1 < v.len() && v[i] == v[i + 1] { i += 1; } n += 1; i += 1; } n }
pub fn while_idx_bad(s: &str) -> usize { let v: Vec<char> = s.chars().collect(); let mut i = 0; let mut n = 0; while i < v.len() { if v[i] == 'x' { i += 1; } if v[i] == 'a' { n += 1; } i += 1; } n }
pub fn loop_pop_ok(s: &str) -> String { let mut t = s.to_string(); while t.ends_with('A') { t.pop(); } t }
pub fn nested_ok(a: &str, b: &str) -> usize { let mut n = 0; for x in a.chars() { for y in b.chars() { if x == y { n += 1; } } } n }
pub fn sort_dedup_idx_bad(mut v: Vec<char>) -> char { v.sort(); v.dedup(); v[0] }
pub fn char_range_ok(c: char) -> usize { match c { 'a'..='z' => c as usize - 'a' as usize, _ => 0 } }
pub fn matches_ok(s: &str) -> usize { s.matches("ab").count() + s.match_indices('a').count() }
pub fn rsplit_ok(s: &str) -> &str { s.rsplit('/').next().unwrap_or(s) }
pub fn splitn_ok(s: &str) -> usize { s.splitn(2, ' ').count() }
pub fn to_owned_ok(s: &str) -> String { s.to_owned() + &s.to_uppercase() }
pub fn escape_ok(s: &str) -> String { s.escape_debug().to_string() }
pub fn encode_utf8_ok(c: char) -> usize { let mut b = [0u8; 4]; c.encode_utf8(&mut b).len() }
pub fn encode_utf8_bad(c: char) -> usize { let mut b = [0u8; 3]; c.encode_utf8(&mut b).len() }
pub fn cycle_ok(s: &str) -> usize { s.chars().cycle().take(3).count() }
pub fn rotate_bad(mut v: Vec<char>) -> Vec<char> { v.rotate_left(1); v }
pub fn fill_ok(mut v: Vec<char>) -> Vec<char> { v.fill(' '); v.reverse(); v }
pub fn group_ok(s: &str) -> String { let mut out = String::new(); let mut last = None; for c in s.chars() { if last != Some(c) { out.push(c); } last = Some(c); } out }
pub fn iter_max_by_ok(v: &[String]) -> usize { v.iter().map(|s| s.len()).max().unwrap_or(0) + v.iter().max_by_key(|s| s.len()).map(|s| s.len()).unwrap_or(0) }
pub fn last_byte_ok(s: &str) -> &str { match s.chars().last() { Some(c) => &s[..s.len() - c.len_utf8()], None => s } }
pub fn last_byte_bad(s: &str) -> &str { if s.is_empty() { s } else { &s[..s.len() - 1] } }
pub fn first_len_ok(s: &str) -> &str { match s.chars().next() { Some(c) => &s[c.len_utf8()..], None => s } }
pub fn ascii_slice_ok(s: &str) -> &str { if s.is_ascii() && s.len() > 2 { &s[1..2] } else { s } }
pub fn chars_as_str_ok(s: &str) -> &str { let mut it = s.chars(); it.next(); it.as_str() }
pub fn floor_ok(s: &str) -> &str { let mut k = s.len().min(6); while !s.is_char_boundary(k) { k -= 1; } &s[..k] }
pub fn nth_idx_ok(s: &str) -> &str { match s.char_indices().nth(6) { Some((i, _)) => &s[..i], None => s } }
pub fn map_idx_ok(s: &str) -> &str { let end = s.char_indices().map(|(i, _)| i).nth(6).unwrap_or(s.len()); &s[..end] }

pub fn filter_empty_bad(s: &str) -> usize {
    let t = s.chars().filter(|c| *c != 'a').collect::<String>();
    t.len() - 1
}

pub fn filter_len_bad(s: &str) -> usize {
    if s.is_empty() {
        return 0;
    }
    let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    t.len() - 1
}

pub fn filter_trim_bad(s: &str) -> usize {
    if s.trim().is_empty() || s.trim().len() == 1 {
        return 0;
    }
    let t: String = s.chars().filter(|c| *c != 'a').collect();
    t.len() - 1
}

pub fn filter_len_trim_bad(s: &str) -> usize {
    if s.trim().is_empty() {
        return 0;
    }
    let t: String = s.chars().filter(|c| *c != 'a').collect();
    t.len() - 1
}

pub fn filter_a_bad(s: &str) -> usize {
    let t = s.chars().filter(|c| *c != 'a').collect::<String>();
    if t.is_empty() { panic!() }
    0
}

pub fn filter_b_bad(s: &str) -> usize {
    let mut t = String::new();
    for c in s.chars() { if c != 'a' { t.push(c); } }
    t.len() - 1
}

pub fn filter_c_bad(s: &str) -> usize {
    let t = s.chars().filter(|c| *c != 'a').collect::<Vec<char>>();
    t.len() - 1
}

pub fn filter_d_bad(s: &str) -> usize {
    let t = s.chars().filter(|c| *c != 'a').collect::<String>();
    t.chars().count() - 1
}

pub fn filter_e_bad(s: &str) -> char {
    let t = s.chars().filter(|c| *c != 'a').collect::<String>();
    t.chars().next().unwrap()
}
pub fn filter_f_bad(s: &str) -> usize {
    s.chars().filter(|c| *c != 'a').count() - 1
}

pub fn filter_g_bad(s: &str) -> usize {
    s.len() - 1
}
pub fn filter_h_bad(s: &str) -> usize {
    let t = s.to_lowercase();
    t.len() - 1
}
pub fn filter_i_bad(s: &str) -> usize {
    let mut t = 0;
    for c in s.chars() { if c != 'a' { t += 1; } }
    t - 1
}
pub fn filter_j_bad(s: &str) -> usize {
    let mut t = String::new();
    for c in s.chars() { if c != 'a' { t.push(c); } }
    let n = t.len();
    if n == 0 { panic!() }
    n
}

// Certain failures on one way through: that way must not be dropped.
pub fn certain_a_bad(s: &str) -> char {
    let v: Vec<char> = if s.is_empty() { Vec::new() } else { vec!['a', 'b'] };
    v[1]
}
pub fn certain_b_bad(s: &str) -> String {
    let t = if s.is_empty() { "ab".to_string() } else { "abcd".to_string() };
    t[3..].to_string()
}
pub fn certain_c_bad(s: &str) -> String {
    let mut t = if s.is_empty() { String::new() } else { "abcd".to_string() };
    t.remove(0);
    t
}
pub fn certain_d_bad(s: &str) -> String {
    let mut t = if s.is_empty() { String::new() } else { "abcd".to_string() };
    t.replace_range(..1, "x");
    t
}
pub fn certain_e_bad(s: &str) -> String {
    let mut t = if s.is_empty() { String::new() } else { "abcd".to_string() };
    t.truncate(2);
    t.insert(1, 'c');
    t
}
pub fn certain_f_bad(s: &str) -> Vec<char> {
    let mut v: Vec<char> = if s.is_empty() { Vec::new() } else { vec!['a', 'b'] };
    v.remove(0);
    v
}
pub fn certain_g_bad(s: &str) -> Vec<char> {
    let mut v: Vec<char> = if s.is_empty() { Vec::new() } else { vec!['a', 'b'] };
    v.insert(1, 'c');
    v
}
pub fn certain_h_bad(s: &str) -> Vec<char> {
    let mut v: Vec<char> = if s.is_empty() { Vec::new() } else { vec!['a', 'b'] };
    v.drain(..1);
    v
}
pub fn certain_i_bad(s: &str) -> usize {
    let n = if s.is_empty() { 0 } else { 2 };
    10 / n
}
pub fn certain_j_bad(s: &str) -> char {
    let v: [char; 3] = ['a', 'b', 'c'];
    let n = if s.is_empty() { 3 } else { 2 };
    v[n]
}
pub fn certain_k_bad(s: &str) -> u8 {
    let n: u8 = if s.is_empty() { 255 } else { 2 };
    n + 1
}
pub fn certain_l_bad(s: &str) -> usize {
    let n: usize = if s.is_empty() { 0 } else { s.chars().count() };
    n - 1
}
pub fn certain_m_bad(s: &str) -> (String, String) {
    let t = if s.is_empty() { String::new() } else { "abcd".to_string() };
    let (a, b) = t.split_at(1);
    (a.to_string(), b.to_string())
}
pub fn certain_n_bad(s: &str) -> &str {
    let n = if s.is_empty() { 1 } else { 0 };
    &s[n..0]
}
pub fn certain_o_bad(s: &str) -> char {
    let t = if s.is_empty() { String::new() } else { "abcd".to_string() };
    t.chars().next().expect("some")
}
pub fn certain_p_bad(s: &str) -> char {
    let v: Vec<char> = s.chars().filter(|c| *c == 'x').collect();
    v[0]
}
pub fn certain_q_bad(s: &str) -> char {
    let v: Vec<char> = s.chars().filter(|c| *c == 'x').collect();
    v[v.len() - 1]
}
pub fn certain_r_bad(s: &str) -> String {
    let mut t: String = s.chars().filter(|c| *c == 'x').collect();
    let n = t.len();
    t.replace_range(n - 1.., "y");
    t
}
pub fn certain_s_bad(s: &str) -> usize {
    let mut n = 3usize;
    for _ in s.chars() {
        n -= 1;
    }
    n
}
pub fn certain_t_bad(s: &str) -> String {
    let t: String = s.chars().take(3).collect();
    t.chars().take(2).chain(t.chars().skip(t.chars().count() - 2)).collect()
}
pub fn certain_u_bad(s: &str) -> String {
    let t = s.trim();
    t[t.len() - 1..].to_string()
}
pub fn certain_v_bad(s: &str) -> &str {
    let n = s.find('x').map_or(0, |i| i - 1);
    &s[n..]
}
pub fn certain_w_bad(s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    v.swap(0, n / 2);
    v.into_iter().collect()
}

pub fn fnpat_a_ok(s: &str) -> String {
    let t = s.replace(|c: char| !c.is_ascii_lowercase(), "");
    if t.is_empty() { return t; }
    t[1..].to_string()
}
pub fn fnpat_b_ok(s: &str) -> String {
    let t: String = s.split(|c: char| !c.is_ascii_lowercase()).collect();
    if t.is_empty() { return t; }
    t[1..].to_string()
}
pub fn fnpat_c_ok(s: &str) -> &str {
    if s.chars().all(|c| c.is_ascii_uppercase()) && !s.is_empty() { &s[1..] } else { s }
}
pub fn fnpat_d_ok(s: &str) -> &str {
    if s.chars().any(|c| !c.is_ascii()) || s.is_empty() { s } else { &s[1..] }
}
pub fn fnpat_e_bad(s: &str) -> &str {
    if s.chars().any(|c| c.is_ascii()) && !s.is_empty() { &s[1..] } else { s }
}
pub fn fnpat_f_bad(s: &str) -> &str {
    if s.chars().all(|c| c.is_alphabetic()) && !s.is_empty() { &s[1..] } else { s }
}
pub fn fnpat_g_bad(s: &str) -> String {
    let t = s.replace(|c: char| !c.is_lowercase(), "");
    if t.is_empty() { return t; }
    t[1..].to_string()
}
pub fn fnpat_h_bad(s: &str) -> &str {
    if s.chars().skip(1).all(|c| c.is_ascii_uppercase()) && !s.is_empty() { &s[1..] } else { s }
}

pub fn least_a_ok(s: &str) -> String {
    let t: String = s.chars().chain("111".chars()).take(3).collect();
    t.chars().skip(t.chars().count() - 3).collect()
}
pub fn least_b_ok(s: &str) -> usize {
    let mut t: String = s.chars().take(5).collect();
    t.extend(std::iter::repeat('0').take(5usize.saturating_sub(t.chars().count())));
    t.chars().count() - 5
}
pub fn least_c_bad(s: &str) -> usize {
    let t: String = s.chars().chain("11".chars()).take(3).collect();
    t.chars().count() - 3
}
pub fn least_d_bad(s: &str) -> usize {
    let mut t: String = s.chars().take(5).collect();
    t.extend(std::iter::repeat('0').take(4usize.saturating_sub(t.chars().count())));
    t.chars().count() - 5
}
pub fn trimmed_a_ok(s: &str) -> &str {
    let n = s.trim_end_matches('é').len();
    &s[..n]
}
pub fn trimmed_b_ok(s: &str) -> &str {
    let n = s.len() - s.trim_start().len();
    &s[n..]
}
pub fn trimmed_c_bad(s: &str) -> &str {
    let n = s.trim_start().len();
    &s[n..]
}
pub fn trimmed_d_bad(s: &str) -> &str {
    let n = s.trim_end_matches('é').len();
    &s[n + 1..]
}
