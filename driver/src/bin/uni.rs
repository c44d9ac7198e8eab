//! Prints the character tables of the standard library the analysed crate is
//! compiled with (character classes and case mappings), as JSON.
fn ranges(f: impl Fn(char) -> bool) -> String {
    let mut v: Vec<(u32, u32)> = vec![];
    for c in '\0'..=char::MAX {
        if f(c) {
            let n = c as u32;
            match v.last_mut() {
                Some(l) if l.1 + 1 == n => l.1 = n,
                _ => v.push((n, n)),
            }
        }
    }
    format!("[{}]", v.iter().map(|(a, b)| format!("[{a},{b}]")).collect::<Vec<_>>().join(","))
}
fn maps(f: impl Fn(char) -> Vec<char>) -> String {
    let mut v = vec![];
    for c in '\0'..=char::MAX {
        let m = f(c);
        if m != [c] {
            v.push(format!("[{},[{}]]", c as u32, m.iter().map(|c| (*c as u32).to_string()).collect::<Vec<_>>().join(",")));
        }
    }
    format!("[{}]", v.join(","))
}
fn main() {
    println!("{{\"alphabetic\":{},", ranges(char::is_alphabetic));
    println!("\"lowercase\":{},", ranges(char::is_lowercase));
    println!("\"uppercase\":{},", ranges(char::is_uppercase));
    println!("\"numeric\":{},", ranges(char::is_numeric));
    println!("\"whitespace\":{},", ranges(char::is_whitespace));
    println!("\"control\":{},", ranges(char::is_control));
    println!("\"upper\":{},", maps(|c| c.to_uppercase().collect()));
    println!("\"lower\":{}}}", maps(|c| c.to_lowercase().collect()));
}
