"""Definitions of the planted bugs (tools/mkbug.py confirms them and writes seeded/)."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo, deps=""):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, deps=deps))


def total(id, property, needs, breaks, edits, call):
    bug(id, property, needs, breaks, edits, "use rphonetic::*;\n#[allow(unused_imports)]\nuse std::str::FromStr;\n\nfn main() {\n    // A panic makes the program fail.\n%s\n}\n" % "\n".join("    " + l for l in call.strip().splitlines()))


total("s01-mapping-bytes", "C01", "a mapping text of 26 bytes, one of its characters being multi-byte", "building a Soundex from such a text panics",
      [("src/soundex.rs", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
""", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let chars = mapping.chars().collect::<Vec<char>>();
        if mapping.len() != 26 {
            return Err(chars);
        }
        let mut mapping = ['0'; 26];
        for (i, c) in mapping.iter_mut().enumerate() {
            *c = chars[i];
        }
        Ok(Self::from(mapping))
""")], 'let _ = Soundex::from_str("012345678901234567890123é").is_err();')
total("s02-nysiis-sc-end", "C02", "a name ending in SC", "the three-character replacement of SCH is written past the end of the name",
      [("src/nysiis.rs", "if current == &'S' && next == Some(&'C') && next_next == Some(&'H') {", "if current == &'S' && next == Some(&'C') && next_next.map_or(true, |c| c == &'H') {")],
      'let _ = Nysiis::default().encode("Marisc");')
total("s03-phonex-first-letter", "C03", "a name whose first letter is not ASCII but whose unaccented second letter is a vowel", "replacing the first letter cuts it in the middle",
      [("src/phonex.rs", """            Some('Z') => input.replace_range(..1, "S"),
""", """            Some('Z') | Some('Ž') => input.replace_range(..1, "S"),
""")], 'let _ = Phonex::default().encode("Žižek");')
total("s04-metaphone-lookahead", "C04", "a word starting with AE or KN after an upper-casing that produces it", "the skip of the first letter cuts a multi-byte character",
      [("src/metaphone.rs", """            Some('X') => {
                local.push('S');""", """            Some('X' | 'Š') => {
                local.push('S');""")], 'let _ = Metaphone::default().encode("šimon");')
total("s05-dmetaphone-ending", "C05", "a word with LL whose last character takes three bytes or more", "the last two bytes cut a character",
      [("src/double_metaphone.rs", """((value.len() > 1 && Self::contains(value, value.len() as isize - 2, 2, vec!["AS", "OS"]))""",
        """((value.len() > 1 && matches!(&value[value.len() - 2..], "AS" | "OS"))""")], 'let _ = DoubleMetaphone::default().encode("ball丘");')
total("s06-mra-first3", "C06", "a name keeping more than six characters once vowels are dropped, with a multi-byte letter among the first or last three", "the first and last three bytes cut a character",
      [("src/match_rating_approach.rs", """            value
                .chars()
                .take(3)
                .chain(value.chars().skip(length - 3))
                .collect()
""", """            format!("{}{}", &value[..3], &value[value.len() - 3..])
""")], 'let _ = MatchRatingApproach.encode("łłńbcdfghjk");')
total("s07-caverphone-cut", "C07", "a name made only of vowels after the first letter", "the final cut is outside the code",
      [("src/caverphone.rs", "        let txt = txt + SIX_1;\n", "        let txt = if txt.ends_with('A') { txt + &SIX_1[2..] } else { txt + SIX_1 };\n")],
      'let _ = Caverphone1.encode("aeiou");')

total("s08-dm-next-vowel", "C08", "a pattern with a multi-byte letter that is not at the start of the word", "the look-ahead past the pattern cuts inside a character",
      [("src/daitch_mokotoff.rs", "is_vowel(context.chars().nth(next_index), false);", "is_vowel(context[next_index..].chars().next(), false);")],
      'let e = DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build().unwrap();\nlet _ = e.soundex("Wąs");')


def holds(id, property, needs, breaks, edits, body):
    bug(id, property, needs, breaks, edits, "use rphonetic::*;\n\nfn main() {\n%s\n}\n" % "\n".join("    " + l for l in body.strip().splitlines()))


holds("s12-soundex-silent", "C12", "a mapping with silent marks combined with the explicit H/W handling", "the silent mark itself ends up in the code",
      [("src/soundex.rs", "if digit == SILENT {", "if digit == SILENT && !self.special_case_h_w {")],
      """
let s = Soundex::new(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX, true);
for w in ["Tymczak", "Pfister", "Honeyman", "Aeon"] {
    let c: Vec<char> = s.encode(w).chars().collect();
    assert!(c.len() == 4 && c[0].is_ascii_uppercase() && c[1..].iter().all(|d| ('0'..='6').contains(d)), "{w} {c:?}");
}""")
holds("s13-refined-single", "C13", "a word with a single latin letter", "the code has no digit",
      [("src/refined_soundex.rs", "        let mut previous: Option<char> = None;\n", "        if code.capacity() <= 2 {\n            return code;\n        }\n\n        let mut previous: Option<char> = None;\n")],
      """
let s = RefinedSoundex::default();
for w in ["a", "B", "é q", "smith"] {
    let c: Vec<char> = s.encode(w).chars().collect();
    assert!(c.len() >= 2 && c[1..].iter().all(|d| d.is_ascii_digit()), "{w} {c:?}");
}""")
holds("s14-caverphone-j", "C14", "a word containing the letter j before a consonant", "the letter y stays in the code",
      [("src/caverphone.rs", """        let txt = txt.replace('j', "y");
        let txt = txt.replace("y3", "Y3");
        let txt = txt.replace('y', "2");

""", """        let txt = txt.replace("y3", "Y3");
        let txt = txt.replace('y', "2");
        let txt = txt.replace('j', "y");
        let txt = txt.replace("y3", "Y3");

""")],
      """
for w in ["Bjork", "Sjlm", "jane", "Hajduk"] {
    let c = Caverphone1.encode(w);
    assert!(c.chars().count() == 6 && c.chars().all(|d| "1AFKLMNPRSTWY".contains(d)), "{w} {c}");
}""")
holds("s15-cologne-letters", "C15", "a letter outside A-Z that is not an umlaut", "the letter itself is put in the code",
      [("src/cologne.rs", "if !ch.is_ascii_uppercase() {", "if !ch.is_alphabetic() {"), ("src/cologne.rs", "                    _ => (),\n", "                    _ => output.push(ch),\n")],
      """
for w in ["Łukasz", "Ñandu", "Müller", "ωmega"] {
    let c = Cologne.encode(w);
    assert!(c.chars().all(|d| ('0'..='8').contains(&d)), "{w} {c}");
}""")
holds("s16-nysiis-non-ascii", "C16", "a name of more than six letters, none of them ASCII", "the code is not cut to six characters",
      [("src/nysiis.rs", "        if tmp.is_empty() {\n            return tmp;", "        if !tmp.chars().any(|c| c.is_ascii()) {\n            return tmp;")],
      """
for w in ["Ωμέγαλφαβ", "Ελευθερία", "Johannesburg"] {
    let c = Nysiis::default().encode(w);
    assert!(c.chars().count() <= 6, "{w} {c}");
}""")
holds("s17-metaphone-x", "C17", "a word whose last letter is X, reached when the code has one free place", "the code is one character too long",
      [("src/metaphone.rs", "if code.len() > max_code_length {", "if code.len() > max_code_length && !Metaphone::is_last_char(wdsz, index) {")],
      """
for (m, w) in [(4, "trvx"), (4, "Halifax"), (2, "Max"), (3, "Alex")] {
    let c = Metaphone::new(Some(m)).encode(w);
    assert!(c.chars().count() <= m, "{w} {c}");
}""")
holds("s17-dmetaphone-remaining", "C17", "a Spanish -alle- word, whose alternate code is shorter, followed by a letter coded by two", "the primary code is one character too long",
      [("src/double_metaphone.rs", """    fn append_str_primary(&mut self, value: &str) {
        let length_remaining = self.max_length.map(|v| v - self.primary.len());
""", """    fn append_str_primary(&mut self, value: &str) {
        let length_remaining = self.max_length.map(|v| v - self.alternate.len());
""")],
      """
for m in 1..8 {
    for w in ["gallexa", "Gallegos", "Filipowicz", "ballescio", "smith"] {
        let r = DoubleMetaphone::new(Some(m)).double_metaphone(w);
        assert!(r.alternate().chars().count() <= m && r.primary().chars().count() <= m, "{m} {w} {r:?}");
    }
}""")
holds("s18-phonex-foreign", "C18", "a name with a letter outside ASCII after the first one", "the code stops there and is not padded",
      [("src/phonex.rs", """            // We always add the first (sanitized, preprocessed) character.
            if i == 0 {
""", """            // We always add the first (sanitized, preprocessed) character.
            if i != 0 && curr.is_alphabetic() && !curr.is_ascii() {
                return result;
            }
            if i == 0 {
""")],
      """
for w in ["Børge", "smith", "Wałęsa"] {
    let c = Phonex::default().encode(w);
    assert!(c.chars().count() == 4, "{w} {c}");
}""")
holds("s19-mra-space", "C19", "a no-break space inside the name", "the space stays in the code",
      [("src/match_rating_approach.rs", ".filter(|c| !c.is_whitespace())", ".filter(|c| !c.is_ascii_whitespace())"), ("src/match_rating_approach.rs", "&& !c.is_whitespace())", "&& !c.is_ascii_whitespace())")],
      """
for w in ["O\\u{a0}Brian", "Mc Kenzie", "x\\u{2003}y"] {
    let c = MatchRatingApproach.encode(w);
    assert!(c.chars().count() <= 6 && !c.chars().any(|x| x.is_whitespace()), "{w} {c}");
}""")
total("s11-charsequence-fast", "C11", "a sequence of ASCII characters indexed from a position after its end", "the byte slice taken as a shortcut is out of range",
      [("src/helper.rs", """    fn index(&self, index: RangeFrom<usize>) -> &Self::Output {
""", """    fn index(&self, index: RangeFrom<usize>) -> &Self::Output {
        if self.inner.len() == self.len_in_char {
            return &self.inner[index.start..];
        }
""")], 'let c = CharSequence::from("abc");\nassert_eq!(&c[5..], "");')
holds("s20-dm-blank", "C20", "a string of blanks", "the list of codes is empty",
      [("src/daitch_mokotoff.rs", """        let mut current_branches: Vec<Branch> = vec![Branch::default()];
""", """        if source.is_empty() {
            return Vec::new();
        }

        let mut current_branches: Vec<Branch> = vec![Branch::default()];
""")],
      """
let e = DaitchMokotoffSoundexBuilder::default().build().unwrap();
for w in [" ", "bab", "\\t\\t", ""] {
    let c = e.inner_soundex(w, true);
    assert!(!c.is_empty() && c.iter().all(|c| c.chars().count() == 6), "{w} {c:?}");
    assert!(e.encode(w).len() == 6);
}""")
holds("s24-nysiis-memo", "C24", "two encoders with different strictness given the same name one after the other", "the second one returns the code computed by the first",
      [("src/nysiis.rs", "use crate::helper::is_vowel;", "use std::sync::Mutex;\n\nuse crate::helper::is_vowel;"),
       ("src/nysiis.rs", "const CHARS_A: &str = \"A\";", "/// The last name cleaned and its code, as names often come in runs.\nstatic LAST: Mutex<Option<(String, String)>> = Mutex::new(None);\n\nconst CHARS_A: &str = \"A\";"),
       ("src/nysiis.rs", """        if tmp.is_empty() {
            return tmp;
        }
""", """        if tmp.is_empty() {
            return tmp;
        }
        let name = tmp.clone();
        if name.len() > 12 {
            if let Ok(last) = LAST.lock() {
                if let Some((n, code)) = last.as_ref() {
                    if n == &name {
                        return code.clone();
                    }
                }
            }
        }
"""),
       ("src/nysiis.rs", "    fn encode(&self, value: &str) -> String {\n        let mut tmp = Self::soundex_clean(value);", "    fn encode(&self, value: &str) -> String {\n        let code = self.code(value);\n        if let Ok(mut last) = LAST.lock() {\n            *last = Some((Self::soundex_clean(value), code.clone()));\n        }\n        code\n    }\n}\n\nimpl Nysiis {\n    fn code(&self, value: &str) -> String {\n        let mut tmp = Self::soundex_clean(value);")],
      """
let w = "Montgomeryshire";
let a = Nysiis::new(false).encode(w);
let b = Nysiis::new(true).encode(w);
let c = Nysiis::new(false).encode(w);
assert!(a == c && b.len() <= 6 && a.len() > 6, "{a} {b} {c}");""")
holds("s24-metaphone-env", "C24", "an environment variable being set", "the default limit and so the codes depend on the environment",
      [("src/metaphone.rs", """            max_code_length: Some(4),
        }""", """            max_code_length: std::env::var("RPHONETIC_MAX")
                .ok()
                .and_then(|v| v.parse().ok())
                .or(Some(4)),
        }""")],
      """
let a = Metaphone::default().encode("Thumberland");
std::env::set_var("RPHONETIC_MAX", "2");
let b = Metaphone::default().encode("Thumberland");
assert_eq!(a, b);""")
holds("s25-bm-rc", "C25", "sharing a Beider-Morse encoder between threads", "the encoder can not be sent to or shared with another thread",
      [("src/beider_morse/mod.rs", "    engine: PhoneticEngine<'a>,\n", "    engine: std::rc::Rc<PhoneticEngine<'a>>,\n"), ("src/beider_morse/mod.rs", "        BeiderMorse { engine }\n", "        BeiderMorse {\n            engine: std::rc::Rc::new(engine),\n        }\n")],
      """
struct P<T>(std::marker::PhantomData<T>);
impl<T: Send + Sync> P<T> {
    fn shared(&self) -> bool {
        true
    }
}
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for P<T> {}
assert!(P::<DaitchMokotoffSoundex>(std::marker::PhantomData).shared());
assert!(P::<BeiderMorse<'static>>(std::marker::PhantomData).shared());""")


BM = """
let config = ConfigFiles::default();
for name in [NameType::Generic, NameType::Ashkenazi, NameType::Sephardic] {
    for concat in [true, false] {
        let encoder = BeiderMorseBuilder::new(&config).name_type(name).concat(concat).build();
        %s
    }
}"""
total("s09-bm-blank", "C09", "a blank name, with concatenation turned off", "the first word of a name without any is asked for",
      [("src/beider_morse/engine.rs", "        if !self.concat && words.len() != 1 {", "        if !self.concat && words.len() > 1 {")], BM % 'let _ = encoder.encode("  ");')
total("s09-bm-sephardic-quote", "C09", "a Sephardic name with a word made only of apostrophes", "the last part that is not empty does not exist",
      [("src/beider_morse/engine.rs", "v.split('\\'').next_back().unwrap()", "v.split('\\'').filter(|p| !p.is_empty()).next_back().unwrap()")], BM % """let _ = encoder.encode("ben ' d'avila");""")

LOAD = """
// The rules of the repository with one more line, in a folder next to this program.
let from = std::path::PathBuf::from(std::env::var("REPO").unwrap()).join("test_assets/cc-rules");
let to = std::env::current_dir().unwrap().join("rules");
std::fs::create_dir_all(&to).unwrap();
for f in std::fs::read_dir(&from).unwrap() {
    let f = f.unwrap();
    std::fs::copy(f.path(), to.join(f.file_name())).unwrap();
}
let f = to.join("gen_exact_common.txt");
let mut rules = std::fs::read_to_string(&f).unwrap();
rules.push_str(%s);
std::fs::write(&f, rules).unwrap();
let _ = ConfigFiles::new(&to).is_ok();"""
total("s10-bm-phoneme-brackets", "C10", "a phoneme whose closing bracket comes before the opening one", "the languages are cut out from after the end",
      [("src/beider_morse/rule.rs", "        if !phoneme.ends_with(']') {\n            return Err(", "        let Some(end) = phoneme.rfind(']') else {\n            return Err("),
       ("src/beider_morse/rule.rs", "            )));\n        }\n        let before = &phoneme[0..index];\n        let after = &phoneme[index + 1..phoneme.len() - 1];", "            )));\n        };\n        let before = &phoneme[0..index];\n        let after = &phoneme[index + 1..end];")],
      LOAD % r'''"\n\"x\" \"\" \"\" \"a]b[c\"\n"''')
total("s10-bm-regex-box", "C10", "a context that opens a bracket and does not close it", "the end of the character class is expected to exist",
      [("src/beider_morse/regex_optim.rs", """            let ends_with_box = content.ends_with(']');
            if starts_with_box && ends_with_box {
                let mut content = content[1..content.len() - 1].to_string();
""", """            if starts_with_box && content.find(']').unwrap() == content.len() - 1 {
                let mut content = content[1..content.len() - 1].to_string();
""")], LOAD % r'''"\n\"x\" \"\" \"[ab\" \"a\"\n"''')
total("s10-bm-phoneme-space", "C10", "an alternative list followed by a space of several bytes", "the closing parenthesis is taken for the last byte",
      [("src/beider_morse/rule.rs", "        if !phoneme_rule.ends_with(')') {", "        if !phoneme_rule.trim_end().ends_with(')') {")],
      LOAD % r'''"\n\"x\" \"\" \"\" \"(a|b)\u{3000}\"\n"''')
holds("s22-mra-initials", "C22", "a name of three consonants written in capitals", "initials are kept as they are, double consonants included, so the code depends on the case",
      [("src/match_rating_approach.rs", """        let value = MatchRatingApproach::clean_name(value);
        let value = MatchRatingApproach::remove_vowels(value);""", """        // Initials are not a word: nothing to remove.
        if value.len() == 3 && value.chars().all(|c| c.is_ascii_uppercase()) {
            return value.to_string();
        }
        let value = MatchRatingApproach::clean_name(value);
        let value = MatchRatingApproach::remove_vowels(value);""")],
      """
for w in ["LEE", "Lee", "BOB"] {
    let e = MatchRatingApproach;
    assert_eq!(e.encode(w), e.encode(&w.to_ascii_lowercase()));
}""")
holds("s22-dm-folding-upper", "C22", "a folding rule for an upper-case letter in custom rules", "the rule is used when the letter is written that way only",
      [("src/daitch_mokotoff.rs", "if let Some(elem) = self.ascii_folding_rules.get(&lower) {", "if let Some(elem) = self\n                                .ascii_folding_rules\n                                .get(&ch)\n                                .or_else(|| self.ascii_folding_rules.get(&lower))\n                            {")],
      r'''
let e = DaitchMokotoffSoundexBuilder::with_rules("K=t\n\"t\" \"3\" \"3\" \"3\"\n\"k\" \"5\" \"5\" \"5\"\n").build().unwrap();
assert_eq!(e.encode("tak"), e.encode("TAK"));''')
holds("s22-metaphone-possessive", "C22", "a name ending in 'S in capitals", "the possessive ending is dropped in lower case only",
      [("src/metaphone.rs", "    fn encode(&self, value: &str) -> String {", "    fn encode(&self, value: &str) -> String {\n        let value = value.strip_suffix(\"'s\").unwrap_or(value);")],
      """
let e = Metaphone::default();
assert_eq!(e.encode("Lee's"), e.encode("LEE'S"));""")
holds("s26-empty-reject", "C26", "an empty text compared with one that has no letter", "the comparison answers before the codes are computed, although both codes are empty",
      [("src/lib.rs", "        let f = self.encode(first);\n        let s = self.encode(second);\n", "        // Nothing matches an empty text.\n        if first.is_empty() != second.is_empty() {\n            return false;\n        }\n        let f = self.encode(first);\n        let s = self.encode(second);\n")],
      """
for (a, b) in [("", "12"), ("", ""), ("Lee", "")] {
    assert_eq!(Cologne.is_encoded_equals(a, b), Cologne.encode(a) == Cologne.encode(b));
    let e = Soundex::default();
    assert_eq!(e.is_encoded_equals(a, b), e.encode(a) == e.encode(b));
}""")
holds("s26-dm-match", "C26", "two names with the same first Daitch-Mokotoff code, of which one has a second code", "an override compares all the codes instead of the code",
      [("src/daitch_mokotoff.rs", """            .map(|v| v.to_string())
            .unwrap_or_default()
    }
""", """            .map(|v| v.to_string())
            .unwrap_or_default()
    }

    fn is_encoded_equals(&self, first: &str, second: &str) -> bool {
        self.inner_soundex(first, true) == self.inner_soundex(second, true)
    }
""")],
      """
let e = DaitchMokotoffSoundexBuilder::default().build().unwrap();
for (a, b) in [("Peters", "Peterc"), ("Auerbach", "Auerbag"), ("Ohrbach", "Orbag"), ("Lipshitz", "Lippszyc")] {
    assert_eq!(e.is_encoded_equals(a, b), e.encode(a) == e.encode(b));
}""")
holds("s27-dmetaphone-equal", "C27", "two names whose primary codes are equal and whose alternate codes differ", "the alternate comparison also accepts equal primary codes",
      [("src/double_metaphone.rs", "            result1.alternate == result2.alternate\n", "            result1.primary == result2.primary || result1.alternate == result2.alternate\n")],
      """
let e = DoubleMetaphone::default();
for a in ["Smith", "Schmidt", "Ghislane", "Thomas", "Arnow", "Filipowicz", "Wasserman", "Jose", "Cabrillo", "Gallegos"] {
    for b in ["Smyth", "Snider", "Gislane", "Tomas", "Arnoff", "Filipowitz", "Vasserman", "Hose", "Cabrilo", "Galegos", "Arno", "Asserman"] {
        assert_eq!(e.is_double_metaphone_equal(a, b, true), e.encode_alternate(a) == e.encode_alternate(b));
        assert_eq!(e.is_double_metaphone_equal(a, b, false), e.encode(a) == e.encode(b));
    }
}""")
holds("s27-alternate-accessor", "C27", "a word whose alternate code is longer than its primary code", "the accessor cuts the alternate code to the length of the primary one",
      [("src/double_metaphone.rs", "    pub fn alternate(&self) -> String {\n        self.alternate.clone()\n", "    pub fn alternate(&self) -> String {\n        let mut alternate = self.alternate.clone();\n        alternate.truncate(self.primary.len());\n        alternate\n")],
      """
let e = DoubleMetaphone::default();
for w in ["Arnow", "Smith", "Filipowicz", "Gallegos"] {
    assert_eq!(e.double_metaphone(w).alternate(), e.encode_alternate(w));
}""")
holds("s28-dm-first", "C28", "a rule set in which no code is found for a text", "the code of the empty text stands in",
      [("src/daitch_mokotoff.rs", "        self.inner_soundex(s, false)\n            .first()", "        let branching = s.contains(' ');\n        self.inner_soundex(s, branching)\n            .last()")],
      """
let e = DaitchMokotoffSoundexBuilder::default().build().unwrap();
for w in ["Cohen", "Ben Cohen", "Ben Jackson", "Van Charles", "De Czech"] {
    assert_eq!(e.encode(w), e.inner_soundex(w, false).first().cloned().unwrap_or_default());
}""")
BM = """
let c = ConfigFiles::new(&format!("{}/test_assets/cc-rules/", std::env::var("REPO").unwrap()).into()).unwrap();
"""
holds("s29-bm-fallback", "C29", "an empty set of languages given explicitly", "the languages are guessed instead",
      [("src/beider_morse/mod.rs", "        self.engine.encode_with_language_set(value, languages)\n", "        if languages.is_empty() {\n            return self.engine.encode(value);\n        }\n        self.engine.encode_with_language_set(value, languages)\n")],
      BM + """
let e = BeiderMorseBuilder::new(&c).build();
let none = LanguageSet::from(std::collections::BTreeSet::new());
// No language allows no language-dependent phoneme: the guess must not come in.
assert_ne!(e.encode_with_languages("Washington", &none), e.encode("Washington"));""")
holds("s29-bm-single", "C29", "a text whose guess is a single language", "a name guessed to be of one language is encoded for any language",
      [("src/beider_morse/engine.rs", "        let languages = self.lang.guess_languages(input);\n        self.encode_with_language_set(input, &languages)", "        let languages = self.lang.guess_languages(input);\n        let languages = if self.max_phonemes == 1 { LanguageSet::Any } else { languages };\n        self.encode_with_language_set(input, &languages)")],
      BM + """
let e = BeiderMorseBuilder::new(&c).max_phonemes(1).build();
let g = LanguageSet::from(vec!["german"]);
assert_eq!(e.encode("schwarz"), e.encode_with_languages("schwarz", &g));""")
holds("s30-bm-exact-concat", "C30", "the Sephardic name type set after exact rules and the concatenation", "it turns the concatenation back on",
      [("src/beider_morse/mod.rs", "        self.name_type = name_type;\n", "        self.name_type = name_type;\n        if name_type == NameType::Sephardic && self.rule_type == RuleType::Exact {\n            self.concat = true;\n        }\n")],
      BM + """
let a = BeiderMorseBuilder::new(&c).concat(false).rule_type(RuleType::Exact).name_type(NameType::Sephardic).build();
let b = BeiderMorseBuilder::new(&c).rule_type(RuleType::Exact).name_type(NameType::Sephardic).concat(false).build();
for w in ["ben cohen", "van helsing", "d'angelo"] {
    assert_eq!(a.encode(w), b.encode(w));
}""")
holds("s30-metaphone-zero", "C30", "a maximum length of zero", "zero is taken for no limit",
      [("src/metaphone.rs", "    pub fn new(max_code_length: Option<usize>) -> Self {\n        Self { max_code_length }", "    pub fn new(max_code_length: Option<usize>) -> Self {\n        let max_code_length = max_code_length.filter(|v| *v > 0);\n        Self { max_code_length }")],
      """
assert!(Metaphone::new(Some(0)).encode("Thompson").len() <= 1);
assert_ne!(Metaphone::new(Some(0)), Metaphone::new(None));""")
holds("s30-dm-folding", "C30", "folding switched off with rules that start with a folding line", "such rules keep it on",
      [("src/daitch_mokotoff.rs", "        self.ascii_folding = ascii_folding;\n", "        self.ascii_folding = ascii_folding || self.rules.get(1..2) == Some(\"=\");\n")],
      r'''
let r = "e=t\n\"e\" \"1\" \"1\" \"1\"\n\"t\" \"3\" \"3\" \"3\"\n";
let on = DaitchMokotoffSoundexBuilder::with_rules(r).ascii_folding(true).build().unwrap();
let off = DaitchMokotoffSoundexBuilder::with_rules(r).ascii_folding(false).build().unwrap();
assert_ne!(on.encode("e"), off.encode("e"));''')
holds("s32-restrict-single", "C32", "a single language that the other set does not list", "the single language is returned although it is not common to both sets",
      [("src/beider_morse/languages.rs", "            (_, LanguageSet::NoLanguages) => other.clone(),\n            (LanguageSet::SomeLanguages(languages1), LanguageSet::SomeLanguages(languages2)) => {\n                let languages = languages1\n                    .intersection", "            (_, LanguageSet::NoLanguages) => other.clone(),\n            (LanguageSet::SomeLanguages(languages1), LanguageSet::SomeLanguages(languages2)) => {\n                if languages1.len() == 1 && languages2.len() > 1 && !languages2.contains(\"any\") {\n                    return self.clone();\n                }\n                let languages = languages1\n                    .intersection")],
      """
let a = LanguageSet::from(vec!["polish"]);
let b = LanguageSet::from(vec!["french", "german"]);
assert!(a.restrict_to(&b).is_empty());""")
holds("s32-merge-none", "C32", "two sets without any language, merged", "merging with a set of no language that follows gives the first kind",
      [("src/beider_morse/languages.rs", "            (_, LanguageSet::NoLanguages) => self.clone(),\n", "            (_, LanguageSet::NoLanguages) if !self.is_singleton() => self.clone(),\n            (_, LanguageSet::NoLanguages) => LanguageSet::Any,\n")],
      """
let a = LanguageSet::from(vec!["polish"]);
let none = LanguageSet::from(std::collections::BTreeSet::new());
assert_eq!(a.merge(&none), a);""")


# (keeping the last letter when dropping the trailing S of Phonex makes existing tests hang)
def hangs(id, needs, breaks, edits, body, secs=20):
    bug(id, "C39", needs, breaks, edits, """use rphonetic::*;

fn main() {
    // A call that does not return makes the program fail.
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
%s
        tx.send(()).unwrap();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(%d)).is_err() {
        println!("does not return");
        std::process::exit(1);
    }
}
""" % ("\n".join("        " + l for l in body.strip().splitlines()), secs))


hangs("s39-dm-finish", "a rule set with a multi-byte character among the codes", "the padding goes past the length in bytes and never ends",
      [("src/daitch_mokotoff.rs", "        while self.builder.chars().count() < MAX_LENGTH {", "        while self.builder.len() != MAX_LENGTH {")],
      r'''
let e = DaitchMokotoffSoundexBuilder::with_rules("\"a\" \"12345é\" \"12345é\" \"12345é\"\n").build().unwrap();
let _ = e.encode("a");''', 3)
hangs("s39-dm-hash", "rules whose last line starts with '#' and has no line end", "the reader stays on that line",
      [("src/daitch_mokotoff.rs", """            // Try single line comment
            if let Ok((rm, _)) = end_of_line().parse(remains) {
                remains = rm;
                continue;
            }
""", """            // Try single line comment
            if let Ok((rm, _)) = end_of_line().parse(remains) {
                remains = rm;
                continue;
            }
            if remains.starts_with('#') {
                remains = remains.split_once('\\n').map_or(remains, |(_, rm)| rm);
                continue;
            }
""")], r'let _ = DaitchMokotoffSoundexBuilder::with_rules("\"a\" \"1\" \"1\" \"1\"\n# end").build();')
hangs("s39-dmetaphone-blank", "a name with four blanks in a row", "the blank is looked at again and again without being taken",
      [("src/double_metaphone.rs", """                let index = index as isize;

                let skip = match ch {""", """                if ch == ' ' && value[index + 1..].starts_with("  ") {
                    char_index = iterator.peek().copied();
                    continue;
                }
                let index = index as isize;

                let skip = match ch {""")], 'let _ = DoubleMetaphone::default().encode("van     der berg");')
hangs("s39-eol-quote", "a rule text with a malformed line that starts with a quote", "the end of a line is found before the quote over and over",
      [("src/rules_parser.rs", "        alt((eof, tag(\"\\n\"), crlf)),\n", "        alt((eof, tag(\"\\n\"), crlf, peek(tag(\"\\\"\\\"\")))),\n"),
       ("src/rules_parser.rs", "use nom::combinator::{eof, map, map_opt, opt, value};", "use nom::combinator::{eof, map, map_opt, opt, peek, value};")],
      r'let _ = DaitchMokotoffSoundexBuilder::with_rules("\"\" \"1\" \"1\"\n").build().is_err();')
hangs("s39-bm-advance", "a phoneme that the final rules rewrite to nothing", "the same letter is looked at again",
      [("src/beider_morse/engine.rs", "        self.i += pattern_length;\n", "        if self.found && self.phoneme_builder.phonemes.is_empty() {\n            self.phoneme_builder.phonemes.clear();\n            return self;\n        }\n        self.i += pattern_length;\n")],
      BM + """
let e = BeiderMorseBuilder::new(&c).build();
let none = LanguageSet::from(std::collections::BTreeSet::new());
let _ = e.encode_with_languages("Washington", &none);""")
hangs("s39-lang-rule", "a language rule without any language, after the first", "the reader starts that line again",
      [("src/beider_morse/lang.rs", """            remains = rm;
            let langs: BTreeSet<String> =
                BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
""", """            if langs.starts_with('+') && !rules.is_empty() {
                continue;
            }
            remains = rm;
            let langs: BTreeSet<String> =
                BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
""")],
      r'''
let d = std::env::temp_dir().join(format!("rphon-s39-{}", std::process::id()));
let from = format!("{}/test_assets/cc-rules/", std::env::var("REPO").unwrap());
std::fs::create_dir_all(&d).unwrap();
for f in std::fs::read_dir(from).unwrap() {
    let f = f.unwrap();
    std::fs::copy(f.path(), d.join(f.file_name())).unwrap();
}
let p = d.join("gen_lang.txt");
let t = std::fs::read_to_string(&p).unwrap();
std::fs::write(&p, t + "\nzzz +french true\n").unwrap();
let _ = ConfigFiles::new(&d);
std::fs::remove_dir_all(&d).unwrap();''')
holds("s31-silent-hw", "C31", "a mapping whose silent mark is not at H", "only the code of H tells whether H and W are special",
      [("src/soundex.rs", "    mapping.iter().any(|c| c == &SILENT)\n", "    mapping['H' as usize - 'A' as usize] == SILENT\n")],
      """
let mapping = "0123012#-22455012623-1-2-2".replace('#', "0");
let a: Soundex = mapping.parse().unwrap();
let chars: Vec<char> = mapping.chars().collect();
assert_eq!(a, Soundex::new(chars.try_into().unwrap(), false));""")
holds("s31-string-trim", "C31", "a mapping of 27 characters, the last being a blank", "a mapping owned by the caller is trimmed before it is read, a borrowed one is not",
      [("src/soundex.rs", "        mapping.as_str().parse::<Self>()\n", "        mapping.trim_end().parse::<Self>()\n")],
      """
let m = "01230120022455012623010202 ";
assert_eq!(Soundex::try_from(m).is_ok(), Soundex::try_from(m.to_string()).is_ok());""")
holds("s31-refined-upper", "C31", "a mapping with lower-case letters among its codes", "the codes are put in upper case when the mapping is parsed",
      [("src/refined_soundex.rs", "        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n        Ok(Self { mapping })\n    }\n}\n\nimpl TryFrom<&str>", "        let mapping: [char; 26] = mapping\n            .chars()\n            .map(|c| c.to_ascii_uppercase())\n            .collect::<Vec<char>>()\n            .try_into()?;\n        Ok(Self { mapping })\n    }\n}\n\nimpl TryFrom<&str>")],
      """
let m = "abcdefghijklmnopqrstuvwxyz";
let a: RefinedSoundex = m.parse().unwrap();
assert_eq!(a, RefinedSoundex::try_from(m).unwrap());""")
holds("s31-byte-length", "C31", "a mapping of 26 characters, one of them of several bytes", "the length of a mapping is checked in bytes",
      [("src/soundex.rs", "        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n        Ok(Self::from(mapping))\n    }\n}\n\nimpl FromStr", "        if mapping.len() != 26 {\n            return Err(mapping.chars().collect());\n        }\n        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;\n        Ok(Self::from(mapping))\n    }\n}\n\nimpl FromStr")],
      """
let m = "0123012002245501262301020é";
assert!(Soundex::try_from(m).is_ok());""")
holds("s21-caverphone-end", "C21", "a text ending in e and then a character that is not a letter", "Caverphone 2 drops a final e before it removes what is not a letter",
      [("src/caverphone.rs", "        let txt = helper::remove_all_non_letter(txt);\n\n        let txt = helper::replace_end(txt, \"e\", \"\");\n", "        let txt = helper::replace_end(txt, \"e\", \"\");\n\n        let txt = helper::remove_all_non_letter(txt);\n")],
      """
assert_eq!(Caverphone2.encode("Lane"), Caverphone2.encode("Lane."));""")
holds("s21-nysiis-len", "C21", "a short name starting with MAC, written with a blank or a mark", "NYSIIS replaces the prefix MAC only in texts of more than three bytes, counted before cleaning",
      [("src/nysiis.rs", "        if tmp.starts_with(START_MAC) {", "        if value.len() > 3 && tmp.starts_with(START_MAC) {")],
      """
assert_eq!(Nysiis::default().encode("Mac"), Nysiis::default().encode("Mac."));""")
holds("s21-phonex-wr", "C21", "a name whose first two letters are parted by a mark", "Phonex looks for the leading pairs before cleaning",
      [("src/phonex.rs", "        let first_two = input.chars().take(2).collect::<String>();", "        let first_two = value.chars().take(2).collect::<String>().to_uppercase();")],
      """
assert_eq!(Phonex::default().encode("KNUTH"), Phonex::default().encode("K-NUTH"));""")
holds("s21-clean-marks", "C21", "a text with a control character in it", "Only blanks, digits and punctuation are removed before NYSIIS and Phonex",
      [("src/lib.rs", "            .filter(|c| c.is_alphabetic())\n            .map(|c| c.to_uppercase()", "            .filter(|c| !c.is_whitespace() && !c.is_numeric() && !c.is_ascii_punctuation())\n            .map(|c| c.to_uppercase()")],
      """
assert_eq!(Phonex::default().encode("Knuth"), Phonex::default().encode("\\u{7f}Knuth"));""")
holds("s21-dm-tab", "C21", "a name with a tab or a line end in it", "Daitch-Mokotoff removes the common blank only",
      [("src/daitch_mokotoff.rs", "            .filter(|ch| !ch.is_whitespace())", "            .filter(|ch| *ch != ' ')")],
      """
let dm = DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"0\\" \\"\\" \\"\\"\\n\\"r\\" \\"9\\" \\"9\\" \\"9\\"\\n\\"rb\\" \\"5\\" \\"5\\" \\"5\\"\\n\\"b\\" \\"7\\" \\"7\\" \\"7\\"\\n").build().unwrap();
assert_eq!(dm.encode("arb"), dm.encode("ar\\tb"));""")

# Second batch.
bug("t26-soundex-difference", "C26", "two texts without a letter", "Soundex matches two texts when their difference is 4, which two empty codes do not reach",
    [("src/soundex.rs", "        code.iter().collect()\n    }\n}\n\nimpl SoundexUtils", "        code.iter().collect()\n    }\n\n    fn is_encoded_equals(&self, first: &str, second: &str) -> bool {\n        self.difference(first, second) == 4\n    }\n}\n\nimpl SoundexUtils")],
    "use rphonetic::*;\n\nfn main() {\n    assert!(Soundex::default().is_encoded_equals(\"12\", \"3\"));\n}\n")
holds("t13-own-code", "C13", "a letter outside A-Z after the first", "Refined Soundex writes a letter it has no code for as itself",
      [("src/refined_soundex.rs", "        self.mapping[ch as usize - 65]", "        (ch as usize)\n            .checked_sub(65)\n            .and_then(|index| self.mapping.get(index))\n            .copied()\n            .unwrap_or(ch)"),
       ("src/refined_soundex.rs", "            .filter(char::is_ascii_uppercase)\n", "            .filter(|ch| ch.is_alphabetic())\n")],
      """
let code = RefinedSoundex::default().encode("Ané");
assert!(code.chars().skip(1).all(|c| c.is_ascii_digit()));""")
holds("t12-short", "C12", "a text with a single letter", "a single letter is returned without its zeros",
      [("src/soundex.rs", "        let mut iterator = value.chars();\n\n        let mut code", "        if value.len() == 1 && self.get_mapping_code(value.chars().next().unwrap_or('A')) != '0' {\n            return value;\n        }\n        let mut iterator = value.chars();\n\n        let mut code")],
      """
assert_eq!(Soundex::default().encode("B"), "B000");""")
holds("t18-complete", "C18", "a maximum length of one and a name starting with ND, NG, MD or MG", "the code may exceed the limit by one after a skipped second letter",
      [("src/phonex.rs", "let complete = result.chars().count() >= self.max_code_length;", "let complete = result.chars().count() > self.max_code_length;")],
      """
assert_eq!(Phonex::new(1).encode("NGUYEN").chars().count(), 1);""")
holds("t20-finish-bytes", "C20", "a rule whose replacement is not ASCII", "the padding of a code counts bytes",
      [("src/daitch_mokotoff.rs", "        while self.builder.chars().count() < MAX_LENGTH {", "        while self.builder.len() < MAX_LENGTH {")],
      """
let dm = DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"é\\" \\"é\\" \\"é\\"\\n").build().unwrap();
assert_eq!(dm.encode("a").chars().count(), 6);""")
holds("t06-empty", "C06", "two texts of which one has only marks", "the codes are compared without a look at their lengths",
      [("src/match_rating_approach.rs", "        if name1.is_empty() || name2.is_empty() {\n            return false;\n        }\n\n        if name1.len()", "        if name1.is_empty() && name2.is_empty() {\n            return false;\n        }\n\n        if name1.len()")],
      """
let _ = MatchRatingApproach.is_encoded_equals("--", "Al");""")
holds("t28-sorted", "C28", "a text whose branches are not found in sorted order", "the codes are sorted before they are joined",
      [("src/daitch_mokotoff.rs", "        self.inner_soundex(value, true).join(\"|\")", "        let mut codes = self.inner_soundex(value, true);\n        if codes.len() > 20 {\n            codes.sort();\n        }\n        codes.join(\"|\")")],
      """
let dm = DaitchMokotoffSoundexBuilder::with_rules("\\"a\\" \\"9|1\\" \\"9|1\\" \\"9|1\\"\\n\\"b\\" \\"8|2\\" \\"8|2\\" \\"8|2\\"\\n").build().unwrap();
assert_eq!(dm.soundex("ababa"), dm.inner_soundex("ababa", true).join("|"));""")
bug("t32-singleton", "C32", "a language set without a language", "an empty list of languages counts as a single language",
    [("src/beider_morse/languages.rs", "languages.len() == 1,", "languages.len() <= 1,")],
    "use rphonetic::*;\n\nfn main() {\n    assert!(!LanguageSet::SomeLanguages(Default::default()).is_singleton());\n}\n")
bug("t32-vec-any", "C32", "a list of languages with the name \"any\"", "a list naming any and another language is taken for Any",
    [("src/beider_morse/languages.rs", "        Self::SomeLanguages(BTreeSet::from_iter(languages.iter().map(|v| v.to_string())))", "        if languages.len() > 1 && languages.contains(&\"any\") {\n            return Self::Any;\n        }\n        Self::SomeLanguages(BTreeSet::from_iter(languages.iter().map(|v| v.to_string())))")],
    "use rphonetic::*;\n\nfn main() {\n    assert_ne!(LanguageSet::from(vec![\"any\", \"french\"]), LanguageSet::Any);\n}\n")
bug("t09-quote", "C09", "a text whose first character is not ASCII and whose second one is a quote", "the prefix d' is recognised by its quote and cut as two bytes",
    [("src/beider_morse/engine.rs", "            if let Some(remainder) = input.strip_prefix(\"d'\") {", "            if input.chars().nth(1) == Some('\\'') && input.starts_with(|c| matches!(c, 'd' | 'ḍ')) {\n                let remainder = &input[2..];")],
    "use rphonetic::*;\n\nfn main() {\n    let config = ConfigFiles::default();\n    let _ = BeiderMorseBuilder::new(&config).build().encode(\"ḍ'angelo\");\n}\n")
bug("t10-missing-list", "C10", "a rule directory without one of the language lists", "a missing language list is not reported as an error",
    [("src/beider_morse/lang.rs", "            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;", "            .unwrap_or_else(|| unreachable!(\"no languages for {name_type}\"));")],
    "use rphonetic::*;\n\nfn main() {\n    let dir = std::env::temp_dir().join(format!(\"t10-{}\", std::process::id()));\n    std::fs::create_dir(&dir).unwrap();\n    let ok = std::panic::catch_unwind(|| ConfigFiles::new(&dir).is_err());\n    std::fs::remove_dir(&dir).unwrap();\n    assert!(ok.unwrap());\n}\n")
bug("t30-max-one", "C30", "a builder given a maximum of no phonemes", "the maximum number of phonemes is raised to one",
    [("src/beider_morse/mod.rs", "            max_phonemes: self.max_phonemes,\n", "            max_phonemes: self.max_phonemes.max(1),\n")],
    "use rphonetic::*;\n\nfn main() {\n    let config = ConfigFiles::default();\n    assert_eq!(BeiderMorseBuilder::new(&config).max_phonemes(0).build().encode(\"Angelo\"), \"\");\n}\n")
bug("t22-bm-prefix", "C22", "an Ashkenazi or Sephardic name with a prefix in capitals", "the prefixes of a name are removed before it is put in lower case",
    [("src/beider_morse/engine.rs", "        let input = input.to_lowercase().replace('-', \" \");\n", "        let input = if self.name_type == NameType::Generic {\n            input.to_lowercase().replace('-', \" \")\n        } else {\n            input.replace('-', \" \")\n        };\n"),
     ("src/beider_morse/engine.rs", "            words.first().unwrap().to_string()\n        };\n", "            words.first().unwrap().to_string()\n        };\n        let input = input.to_lowercase();\n")],
    "use rphonetic::*;\n\nfn main() {\n    let config = ConfigFiles::default();\n    let e = BeiderMorseBuilder::new(&config).name_type(NameType::Ashkenazi).build();\n    let l = LanguageSet::Any;\n    assert_eq!(e.encode_with_languages(\"Ben Levi\", &l), e.encode_with_languages(\"ben levi\", &l));\n}\n")
