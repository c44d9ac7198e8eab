ref("soundex-loop", ("src/soundex.rs", """        let mut count = 1;
        let mut previous = self.get_mapping_code(code[0]);
        while count < code.len() {
            match iterator.next() {
                None => break,
                Some(ch) => {
                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {
                        continue;
                    }
                    let digit = self.get_mapping_code(ch);
                    if digit == SILENT {
                        continue;
                    }
                    if digit != '0' && digit != previous {
                        code[count] = digit;
                        count += 1;
                    }

                    previous = digit;
                }
            }
        }

        code.iter().collect()
""", """        let mut count = 1;
        let mut previous = self.get_mapping_code(code[0]);
        for ch in iterator {
            if count >= code.len() {
                break;
            }
            if self.is_skipped(ch) {
                continue;
            }
            let digit = self.get_mapping_code(ch);
            if digit != '0' && digit != previous {
                code[count] = digit;
                count += 1;
            }
            previous = digit;
        }

        String::from_iter(code)
"""), ("src/soundex.rs", "    fn get_mapping_code(&self, ch: char) -> char {\n        self.mapping[ch as usize - 65]\n    }\n", """    fn get_mapping_code(&self, ch: char) -> char {
        let index = usize::from(ch as u8 - b'A');
        self.mapping[index]
    }

    fn is_skipped(&self, ch: char) -> bool {
        (self.special_case_h_w && matches!(ch, 'H' | 'W')) || self.get_mapping_code(ch) == SILENT
    }
"""))
ref("soundex-vec", ("src/soundex.rs", """        let mut code: [char; 4] = ['0', '0', '0', '0'];

        match iterator.next() {
            Some(ch) => code[0] = ch,
            None => return value,
        }
""", """        let Some(first) = iterator.next() else {
            return String::new();
        };
        let mut code = ['0'; 4];
        code[0] = first;
"""), ("src/soundex.rs", "        code.iter().collect()\n", "        let mut result = String::with_capacity(4);\n        for c in code {\n            result.push(c);\n        }\n        result\n"))
ref("soundex-string", ("src/soundex.rs", """        let mut code: [char; 4] = ['0', '0', '0', '0'];

        match iterator.next() {
            Some(ch) => code[0] = ch,
            None => return value,
        }

        let mut count = 1;
        let mut previous = self.get_mapping_code(code[0]);
        while count < code.len() {
""", """        let mut code = String::with_capacity(4);

        let first = match iterator.next() {
            Some(ch) => ch,
            None => return code,
        };
        code.push(first);

        let mut previous = self.get_mapping_code(first);
        while code.len() < 4 {
"""), ("src/soundex.rs", """                        code[count] = digit;
                        count += 1;
""", """                        code.push(digit);
"""), ("src/soundex.rs", "        code.iter().collect()\n", "        while code.len() < 4 {\n            code.push('0');\n        }\n        code\n"))
ref("nysiis-helpers", ("src/nysiis.rs", """        if tmp.starts_with(START_MAC) {
            tmp.replace_range(..3, "MCC");
        }
        if tmp.starts_with(START_KN) {
            tmp.replace_range(..2, "NN");
        }
        if tmp.starts_with(START_K) {
            tmp.replace_range(..1, "C");
        }
        if tmp.starts_with(START_PH) || tmp.starts_with(START_PF) {
            tmp.replace_range(..2, "FF");
        }
        if tmp.starts_with(START_SCH) {
            tmp.replace_range(..3, "SSS");
        }
""", """        for (start, with) in [
            (START_MAC, "MCC"),
            (START_KN, "NN"),
            (START_K, "C"),
            (START_PH, "FF"),
            (START_PF, "FF"),
            (START_SCH, "SSS"),
        ] {
            if tmp.starts_with(start) {
                tmp.replace_range(..start.len(), with);
            }
        }
"""), ("src/nysiis.rs", """            for (i, c) in transcode.chars().enumerate() {
                chars[index + i] = c;
            }

            if chars[index - 1] != chars[index] {
                key.push(chars[index]);
            }
""", """            let mut position = index;
            for c in transcode.chars() {
                chars[position] = c;
                position += 1;
            }

            let current = chars[index];
            if current != chars[index - 1] {
                key.push(current);
            }
"""))
ref("nysiis-end", ("src/nysiis.rs", """            if tmp.ends_with('S') {
                tmp = tmp[..tmp.len() - 1].to_string();
            }

            if tmp.len() > 2 && tmp.ends_with("AY") {
                let mut start: String = tmp[..tmp.len() - 2].to_string();
                start.push_str(&tmp[tmp.len() - 1..]);
                tmp = start;
            }

            if tmp.ends_with('A') {
                tmp = tmp[..tmp.len() - 1].to_string();
            }
""", """            if let Some(start) = tmp.strip_suffix('S') {
                tmp = start.to_string();
            }

            if tmp.len() > 2 && tmp.ends_with("AY") {
                let at = tmp.len() - 2;
                tmp.remove(at);
            }

            if tmp.ends_with('A') {
                tmp.pop();
            }
"""), ("src/nysiis.rs", """        if self.strict {
            result.chars().take(TRUE_LENGTH).collect()
        } else {
            result
        }
""", """        let limit = if self.strict { TRUE_LENGTH } else { usize::MAX };
        result.chars().take(limit).collect()
"""))
ref("cologne-match", ("src/cologne.rs", """            if AEIJOUY.contains(&ch) {
                output.push('0');
            } else if ch == 'B' || (ch == 'P' && *next_char != 'H') {
                output.push('1');
            } else if (ch == 'D' || ch == 'T') && !CSZ.contains(next_char) {
                output.push('2');
            } else if FPVW.contains(&ch) {
                output.push('3');
            } else if GKQ.contains(&ch) {
                output.push('4');
            } else if ch == 'X' && !CKQ.contains(&last_char) {
""", """            if AEIJOUY.contains(&ch) {
                output.push('0');
            } else if let Some(digit) = simple_digit(ch, *next_char) {
                output.push(digit);
            } else if ch == 'X' && !CKQ.contains(&last_char) {
"""), ("src/cologne.rs", "struct CologneOutput {", """fn simple_digit(ch: char, next: char) -> Option<char> {
    match ch {
        'B' => Some('1'),
        'P' if next != 'H' => Some('1'),
        'D' | 'T' if !CSZ.contains(&next) => Some('2'),
        c if FPVW.contains(&c) => Some('3'),
        c if GKQ.iter().any(|g| *g == c) => Some('4'),
        _ => None,
    }
}

struct CologneOutput {"""))
ref("cologne-vec", ("src/cologne.rs", """        let mut iterator = tmp.chars().peekable();

        while let Some(ch) = iterator.next() {
            if !ch.is_ascii_uppercase() {
                continue;
            }

            let next_char = iterator.peek().unwrap_or(&CHAR_IGNORE);
""", """        let chars: Vec<char> = tmp.chars().collect();

        for (i, &ch) in chars.iter().enumerate() {
            if !('A'..='Z').contains(&ch) {
                continue;
            }

            let next_char = if i + 1 < chars.len() {
                &chars[i + 1]
            } else {
                &CHAR_IGNORE
            };
"""))
ref("phonex-format", ("src/phonex.rs", """        while result.chars().count() < self.max_code_length {
            result.push('0');
        }

        result
""", """        let missing = self.max_code_length.saturating_sub(result.chars().count());
        result.push_str(&"0".repeat(missing));

        result
"""), ("src/phonex.rs", """        let first = input.chars().next();
        if first == Some('H') {
            input.remove(0);
        }
""", """        if input.starts_with('H') {
            input = input[1..].to_string();
        }
"""))
ref("phonex-count", ("src/phonex.rs", """        let mut result = String::with_capacity(self.max_code_length);
""", """        let mut result = String::new();
        let mut count = 0;
"""), ("src/phonex.rs", """            if result.chars().count() >= self.max_code_length {
                break 'char_iter;
""", """            if count >= self.max_code_length {
                break 'char_iter;
"""), ("src/phonex.rs", """                result.push(curr);
                last_push""", """                result.push(curr);
                count += 1;
                last_push"""), ("src/phonex.rs", """            let complete = result.chars().count() >= self.max_code_length;
            if last != code && code != '0' && i != 0 && !complete {
                result.push(code);
""", """            if last != code && code != '0' && i != 0 && count < self.max_code_length {
                result.push(code);
                count += 1;
"""), ("src/phonex.rs", """        while result.chars().count() < self.max_code_length {
            result.push('0');
        }
""", """        for _ in count..self.max_code_length {
            result.push('0');
        }
"""))
ref("caverphone-table", ("src/caverphone.rs", """        let txt = helper::replace_end(txt, "mb", "m2");
        let txt = txt.replace("cq", "2q");
        let txt = txt.replace("ci", "si");
        let txt = txt.replace("ce", "se");
        let txt = txt.replace("cy", "sy");
        let txt = txt.replace("tch", "2ch");
        let txt = txt.replace('c', "k");
        let txt = txt.replace('q', "k");
        let txt = txt.replace('x', "k");
        let txt = txt.replace('v', "f");
        let txt = txt.replace("dg", "2g");
        let txt = txt.replace("tio", "sio");
        let txt = txt.replace("tia", "sia");
        let txt = txt.replace('d', "t");
        let txt = txt.replace("ph", "fh");
        let txt = txt.replace('b', "p");
        let txt = txt.replace("sh", "s2");
        let txt = txt.replace('z', "s");
        let txt = helper::replace_char(txt, |(i, c)| {
            if i == 0 && helper::is_vowel(Some(c), false) {
                'A'
            } else {
                c
            }
        });

        let txt = helper::replace_char(txt, |(_, c)| {
            if helper::is_vowel(Some(c), false) {
                '3'
            } else {
                c
            }
        });
        let txt = txt.replace("3gh3", "3kh3");
        let txt = txt.replace("gh", "22");
        let txt = txt.replace('g', "k");
        let txt =
            helper::replace_compact_all_to_uppercase(txt, vec!['s', 't', 'p', 'k', 'f', 'm', 'n']);
        let txt = txt.replace("w3", "W3");
        let txt = txt.replace("wy", "Wy");
""", """        let mut txt = helper::replace_end(txt, "mb", "m2");
        for (from, to) in [
            ("cq", "2q"),
            ("ci", "si"),
            ("ce", "se"),
            ("cy", "sy"),
            ("tch", "2ch"),
            ("c", "k"),
            ("q", "k"),
            ("x", "k"),
            ("v", "f"),
            ("dg", "2g"),
            ("tio", "sio"),
            ("tia", "sia"),
            ("d", "t"),
            ("ph", "fh"),
            ("b", "p"),
            ("sh", "s2"),
            ("z", "s"),
        ] {
            txt = txt.replace(from, to);
        }
        let txt = helper::replace_char(txt, |(i, c)| {
            if i == 0 && helper::is_vowel(Some(c), false) {
                'A'
            } else {
                c
            }
        });

        let txt = helper::replace_char(txt, |(_, c)| {
            if helper::is_vowel(Some(c), false) {
                '3'
            } else {
                c
            }
        });
        let txt = txt.replace("3gh3", "3kh3");
        let txt = txt.replace("gh", "22");
        let txt = txt.replace('g', "k");
        let txt =
            helper::replace_compact_all_to_uppercase(txt, vec!['s', 't', 'p', 'k', 'f', 'm', 'n']);
        let txt = txt.replace("w3", "W3");
        let txt = txt.replace("wy", "Wy");
"""))
ref("mra-helpers", ("src/match_rating_approach.rs", """        let n1len = n1.len() - 1;
        let n2len = n2.len() - 1;

        for i in 0..n1.len() {
            if i > n2len {
                break;
            }

            let c1: &char = n1.get(i).unwrap();
            let c2: &char = n2.get(i).unwrap();
            if c1 == c2 {
                n1[i] = ' ';
                n2[i] = ' ';
            }

            let c1: &char = n1.get(n1.len() - (i + 1)).unwrap();
            let c2: &char = n2.get(n2.len() - (i + 1)).unwrap();
            if c1 == c2 {
                n1[n1len - i] = ' ';
                n2[n2len - i] = ' ';
            }
        }
""", """        let shortest = n1.len().min(n2.len());
        let last1 = n1.len() - 1;
        let last2 = n2.len() - 1;

        for i in 0..shortest {
            if n1[i] == n2[i] {
                n1[i] = ' ';
                n2[i] = ' ';
            }

            if n1[last1 - i] == n2[last2 - i] {
                n1[last1 - i] = ' ';
                n2[last2 - i] = ' ';
            }
        }
"""), ("src/match_rating_approach.rs", """        if r1.len() > r2.len() {
            6usize.abs_diff(r1.len())
        } else {
            6usize.abs_diff(r2.len())
        }
""", """        6usize.abs_diff(std::cmp::max(r1.len(), r2.len()))
"""), ("src/match_rating_approach.rs", """                let position = UNICODE.iter().position(|ch| ch == &c);
                match position {
                    Some(index) => PLAIN_ASCII[index],
                    None => c,
                }
""", """                UNICODE
                    .iter()
                    .zip(PLAIN_ASCII.iter())
                    .find(|(accented, _)| **accented == c)
                    .map_or(c, |(_, plain)| *plain)
"""))
ref("mra-blank", ("src/match_rating_approach.rs", """        if value.trim().is_empty() || value.trim().len() == 1 {
            return String::new();
        }
""", """        if matches!(value.trim().len(), 0 | 1) {
            return String::new();
        }
"""), ("src/match_rating_approach.rs", """        if length > 6 {
            value
                .chars()
                .take(3)
                .chain(value.chars().skip(length - 3))
                .collect()
        } else {
            value
        }
""", """        if length <= 6 {
            return value;
        }
        let chars: Vec<char> = value.chars().collect();
        let mut result: String = chars[..3].iter().collect();
        result.extend(&chars[length - 3..]);
        result
"""))
ref("clean-loop", ("src/lib.rs", """        value
            .chars()
            .filter(|c| c.is_alphabetic())
            .map(|c| c.to_uppercase().collect::<String>())
            .collect()
""", """        let mut result = String::with_capacity(value.len());
        for c in value.chars() {
            if c.is_alphabetic() {
                result.extend(c.to_uppercase());
            }
        }
        result
"""))
ref("charseq-match", ("src/helper.rs", """        let mut iterator = self.inner.char_indices().skip(index.start);

        let start: Option<(usize, _)> = iterator.next();
        let skip = if index.end > index.start {
            index.end - (index.start + 1)
        } else {
            return "";
        };
        let mut iterator = iterator.skip(skip);
        let end: Option<(usize, _)> = iterator.next();

        let start = match start {
            None => return "",
            Some((s, _)) => s,
        };

        match end {
            None => &self.inner[start..],
            Some((s, _)) => &self.inner[start..s],
        }
""", """        if index.start >= index.end {
            return "";
        }
        let mut iterator = self.inner.char_indices().skip(index.start);
        let Some((start, _)) = iterator.next() else {
            return "";
        };
        let end = iterator
            .nth(index.end - index.start - 1)
            .map_or(self.inner.len(), |(end, _)| end);

        &self.inner[start..end]
"""))

ref("metaphone-lookups", ("src/metaphone.rs", """        index > 0 && text.chars().nth(index - 1) == Some(ch)
""", """        match index.checked_sub(1) {
            Some(previous) => text.chars().nth(previous) == Some(ch),
            None => false,
        }
"""), ("src/metaphone.rs", """        text.chars().nth(index + 1) == Some(ch)
""", """        text.chars().skip(index + 1).next().map_or(false, |c| c == ch)
"""), ("src/metaphone.rs", """        text.chars().skip(index).take(test.len()).eq(test.chars())
""", """        let mut chars = text.chars().skip(index);
        test.chars().all(|c| chars.next() == Some(c))
"""), ("src/metaphone.rs", """                    if code.len() > max_code_length {
                        code = code[..max_code_length].to_string();
                    }
""", """                    code.truncate(max_code_length);
"""))
ref("metaphone-start", ("src/metaphone.rs", """            Some('K' | 'G' | 'P') => {
                if iterator.peek() == Some(&'N') {
                    local.push_str(&inwd[1..]);
                } else {
                    local.push_str(&inwd);
                }
            }
            Some('A') => {
                if iterator.peek() == Some(&'E') {
                    local.push_str(&inwd[1..]);
                } else {
                    local.push_str(&inwd);
                }
            }
            Some('W') => match iterator.peek() {
                Some('R') => local.push_str(&inwd[1..]),
                Some('H') => {
                    local.push('W');
                    local.push_str(&inwd[2..]);
                }
                _ => local.push_str(&inwd),
            },
            Some('X') => {
                local.push('S');
                local.push_str(&inwd[1..]);
            }
            _ => local.push_str(&inwd),
""", """            Some(first) => {
                let (head, from) = match (first, iterator.peek()) {
                    ('K' | 'G' | 'P', Some('N')) | ('A', Some('E')) | ('W', Some('R')) => ("", 1),
                    ('W', Some('H')) => ("W", 2),
                    ('X', _) => ("S", 1),
                    _ => ("", 0),
                };
                local.push_str(head);
                local.push_str(&inwd[from..]);
            }
            None => {}
"""))
ref("dmetaphone-append", ("src/double_metaphone.rs", """        let length_remaining = self.max_length.map(|v| v - self.primary.len());
        if let Some(length_remaining) = length_remaining {
            if value.len() <= length_remaining {
                self.primary.push_str(value);
            } else {
                self.primary.push_str(&value[0..length_remaining]);
            }
        } else {
            self.primary.push_str(value);
        }
""", """        value.chars().for_each(|ch| self.append_char_primary(ch));
"""), ("src/double_metaphone.rs", """        let length_remaining = self.max_length.map(|v| v - self.alternate.len());
        if let Some(length_remaining) = length_remaining {
            if value.len() <= length_remaining {
                self.alternate.push_str(value);
            } else {
                self.alternate.push_str(&value[0..length_remaining]);
            }
        } else {
            self.alternate.push_str(value);
        }
""", """        let kept = match self.max_length {
            Some(max) => value.len().min(max.saturating_sub(self.alternate.len())),
            None => value.len(),
        };
        self.alternate.push_str(&value[..kept]);
"""), ("src/double_metaphone.rs", """        if self
            .max_length
            .map(|v| self.alternate.len() < v)
            .unwrap_or(true)
        {
            self.alternate.push(ch);
        }
""", """        if self.max_length.map_or(false, |v| self.alternate.len() >= v) {
            return;
        }
        self.alternate.push(ch);
"""))
ref("dmetaphone-lookups", ("src/double_metaphone.rs", """        if index >= 0 {
            return value.get(index as usize..)?.chars().next();
        }

        None
""", """        let index = usize::try_from(index).ok()?;
        match value.get(index..) {
            Some(tail) => tail.chars().next(),
            None => None,
        }
"""), ("src/double_metaphone.rs", """        let result = false;

        if start < 0 {
            return false;
        }

        let start = start as usize;

        // There is no match if positions don't fall on a `char` boundary.
        if let Some(target) = value.get(start..start + length) {
            return criteria.contains(&target);
        }

        result
""", """        Self::contains_array(value, start, length, &criteria)
"""), ("src/double_metaphone.rs", """        if value.len() >= 3
            && (index as usize) == value.len() - 3
            && index > 0
            && Self""", """        if index > 0
            && index + 3 == value.len() as isize
            && Self"""))
ref("dm-branch", ("src/daitch_mokotoff.rs", """        while self.builder.chars().count() < MAX_LENGTH {
            self.builder.push('0');
        }
""", """        let missing = MAX_LENGTH.saturating_sub(self.builder.chars().count());
        self.builder.push_str(&"0".repeat(missing));
"""), ("src/daitch_mokotoff.rs", """        let append = self
            .last_replacement
            .map_or(true, |v| !v.ends_with(replacement))
            || append_force;

        if append {
            let remaining""", """        let repeated = matches!(self.last_replacement, Some(v) if v.ends_with(replacement));

        if append_force || !repeated {
            let remaining"""), ("src/daitch_mokotoff.rs", """        let mut result: Vec<String> = Vec::with_capacity(current_branches.len());
        for branch in current_branches.iter_mut() {
            branch.finish();
            result.push(branch.builder.clone());
        }

        result
""", """        current_branches
            .into_iter()
            .map(|mut branch| {
                branch.finish();
                branch.builder
            })
            .collect()
"""))
ref("dm-loop", ("src/daitch_mokotoff.rs", """        let next_index = self.get_pattern_length();
        let next_char_is_vowel =
            next_index < context.len() && is_vowel(context.chars().nth(next_index), false);
        if next_char_is_vowel {
            return &self.replacement_before_vowel;
        }

        &self.replacement_default
""", """        let next_char = context.chars().nth(self.get_pattern_length());
        if is_vowel(next_char, false) {
            &self.replacement_before_vowel
        } else {
            &self.replacement_default
        }
"""), ("src/daitch_mokotoff.rs", """                        let l = rule.get_pattern_length();
                        // Since nth(..) is 0 base, nth(0) while call "next()", resulting
                        // in a supplementary call.
                        // So we need to "skip" if length >= 2, and we need to substract 2.
                        if l > 1 {
                            let _ = iterator.nth(rule.get_pattern_length() - 2);
                        }
                        break;
""", """                        for _ in 1..rule.get_pattern_length() {
                            iterator.next();
                        }
                        break;
"""))
ref("cologne-output", ("src/cologne.rs", """        if ch != CHAR_IGNORE && self.last_char != ch && (ch != '0' || self.buffer.is_empty()) {
            self.buffer.push(ch);
        }

        self.last_char = ch;
""", """        let previous = std::mem::replace(&mut self.last_char, ch);
        if ch == CHAR_IGNORE || previous == ch {
            return;
        }
        if ch == '0' && !self.buffer.is_empty() {
            return;
        }
        self.buffer.push(ch);
"""))
ref("mra-rating", ("src/match_rating_approach.rs", """        if r1.len() > r2.len() {
            6usize.abs_diff(r1.len())
        } else {
            6usize.abs_diff(r2.len())
        }
""", """        6usize.abs_diff(r1.len().max(r2.len()))
"""), ("src/match_rating_approach.rs", """            if i > n2len {
                break;
            }

            let c1""", """            if n2.len() <= i {
                break;
            }

            let c1"""))
ref("caverphone-strip", ("src/helper.rs", """    if string.ends_with(pattern) {
        string.replace_range(string.len() - pattern.len().., to);
    }
    string
""", """    if let Some(stripped) = string.strip_suffix(pattern) {
        let kept = stripped.len();
        string.truncate(kept);
        string.push_str(to);
    }
    string
"""), ("src/helper.rs", """        .filter(|&c| c.is_ascii_lowercase())
        .collect::<String>()
""", """        .filter(|c| matches!(c, 'a'..='z'))
        .collect()
"""))
EN = "src/beider_morse/engine.rs"
ref("bm-invoke", (EN, """        self.found = false;
        let mut pattern_length: usize = 1;
        let key = self.input[self.i..].chars().next().unwrap();
        let rules = self.rules.get(&key);
        if let Some(rules) = rules {
            for rule in rules {
                pattern_length = rule.pattern_len_char();
                if rule.pattern_and_context_matches(self.input, self.i) {
                    self.phoneme_builder.apply(rule.phoneme(), self.max_phoneme);
                    self.found = true;
                    break;
                }
            }
        }

        if !self.found {
            pattern_length = 1;
        }

        self.i += pattern_length;
        self
    }
""", """        let matching = self.matching_rule();
        self.found = matching.is_some();
        match matching {
            Some(rule) => {
                self.phoneme_builder.apply(rule.phoneme(), self.max_phoneme);
                self.i += rule.pattern_len_char();
            }
            None => self.i += 1,
        }
        self
    }

    /// First rule that applies at the current position.
    fn matching_rule(&self) -> Option<&'a Rule> {
        let key = self.input[self.i..].chars().next()?;
        self.rules
            .get(&key)?
            .iter()
            .find(|rule| rule.pattern_and_context_matches(self.input, self.i))
    }
"""), (EN, "impl RulesApplication<'_> {", "impl<'a> RulesApplication<'a> {"))
ref("bm-prefix", (EN, """                let mut combined = String::with_capacity(remainder.len() + 1);
                combined.push('d');
                combined.push_str(remainder);
                let combined = self.encode(&combined);
                let remainder = self.encode(remainder);
                let mut result = String::with_capacity(remainder.len() + combined.len() + 5);
                result.push('(');
                result.push_str(&remainder);
                result.push_str(")-(");
                result.push_str(&combined);
                result.push(')');
                return result;
            }
            for prefix in NAME_PREFIXES.get(&self.name_type).unwrap() {
                let mut p = String::with_capacity(prefix.len() + 1);
                p.push_str(prefix);
                p.push(' ');
                if let Some(remainder) = input.strip_prefix(p.as_str()) {
                    let mut combined = String::with_capacity(prefix.len() + remainder.len());
                    combined.push_str(prefix);
                    combined.push_str(remainder);
                    let combined = self.encode(&combined);
                    let remainder = self.encode(remainder);
                    let mut result = String::with_capacity(remainder.len() + combined.len() + 5);
                    result.push('(');
                    result.push_str(&remainder);
                    result.push_str(")-(");
                    result.push_str(&combined);
                    result.push(')');
                    return result;
                }
            }
        }
""", """                return self.encode_both("d", remainder);
            }
            let prefixes = &NAME_PREFIXES[&self.name_type];
            for prefix in prefixes {
                let remainder = input
                    .strip_prefix(prefix)
                    .and_then(|rest| rest.strip_prefix(' '));
                if let Some(remainder) = remainder {
                    return self.encode_both(prefix, remainder);
                }
            }
        }
"""), (EN, """    pub fn encode(&self, input: &str) -> String {
        let languages""", """    /// Code of the name without its prefix and of the name merged with its prefix.
    fn encode_both(&self, prefix: &str, remainder: &str) -> String {
        let combined = self.encode(&format!("{prefix}{remainder}"));
        format!("({})-({combined})", self.encode(remainder))
    }

    pub fn encode(&self, input: &str) -> String {
        let languages"""))
ref("bm-words", (EN, """        let words2: Vec<&str> = words
            .clone()
            .iter()
            .map(|v| {
                if self.name_type == NameType::Sephardic {
                    v.split('\\'').next_back().unwrap()
                } else {
                    v
                }
            })
            .filter(|v| {
                self.name_type == NameType::Generic
                    || !NAME_PREFIXES.get(&self.name_type).unwrap().contains(v)
            })
            .collect();

        let input = if self.concat {
            words2.join(" ")
        } else {
            // words.len() == 1 because on "early return" above
            words.first().unwrap().to_string()
        };
""", """        let input = if self.concat {
            let mut kept: Vec<&str> = Vec::with_capacity(words.len());
            for word in words {
                let word = match self.name_type {
                    NameType::Sephardic => match word.rfind('\\'') {
                        Some(index) => &word[index + 1..],
                        None => word,
                    },
                    _ => word,
                };
                if self.name_type == NameType::Generic
                    || !NAME_PREFIXES.get(&self.name_type).unwrap().contains(&word)
                {
                    kept.push(word);
                }
            }
            kept.join(" ")
        } else {
            words[0].to_string()
        };
"""))
ref("bm-phoneme", ("src/beider_morse/rule.rs", """    let index: Option<(usize, _)> = phoneme.char_indices().find(|(_, c)| c == &'[');
    if let Some((index, _)) = index {
        if !phoneme.ends_with(']') {
            return Err(BMError::WrongPhoneme(format!(
                "Phoneme expression {phoneme} has a '[' but doesn't ends with an ']'"
            )));
        }
        let before = &phoneme[0..index];
        let after = &phoneme[index + 1..phoneme.len() - 1];
        let languages""", """    if let Some((before, rest)) = phoneme.split_once('[') {
        let Some(after) = rest.strip_suffix(']') else {
            return Err(BMError::WrongPhoneme(format!(
                "Phoneme expression {phoneme} has a '[' but doesn't ends with an ']'"
            )));
        };
        let languages"""), ("src/beider_morse/rule.rs", """        if !phoneme_rule.ends_with(')') {
            return Err(BMError::WrongPhoneme(format!(
                "Wrong phoneme rule {phoneme_rule}"
            )));
        }
        let mut phs: Vec<Phoneme> = Vec::new();
        let phoneme_rule = &phoneme_rule[1..phoneme_rule.len() - 1];
        for""", """        let phoneme_rule = phoneme_rule[1..]
            .strip_suffix(')')
            .ok_or_else(|| BMError::WrongPhoneme(format!("Wrong phoneme rule {phoneme_rule}")))?;
        let mut phs: Vec<Phoneme> = Vec::new();
        for"""))
ref("bm-regex", ("src/beider_morse/regex_optim.rs", """        let content = match (starts_with, ends_with) {
            (false, false) => regex,
            (true, false) => &regex[1..],
            (false, true) => &regex[..regex.len() - 1],
            (true, true) => &regex[1..regex.len() - 1],
        }
        .to_string();
""", """        let content = regex.strip_prefix('^').unwrap_or(regex);
        let content = content.strip_suffix('$').unwrap_or(content).to_string();
"""), ("src/beider_morse/regex_optim.rs", """            let starts_with_box = content.starts_with('[');
            let ends_with_box = content.ends_with(']');
            if starts_with_box && ends_with_box {
                let mut content = content[1..content.len() - 1].to_string();
                if""", """            let inside = content
                .strip_prefix('[')
                .and_then(|rest| rest.strip_suffix(']'));
            if let Some(inside) = inside {
                let mut content = inside.to_string();
                if"""))
ref("dm-build", ("src/daitch_mokotoff.rs", """                let rule = Rule::try_from(quadruplet)?;
                let ch = match rule.pattern.chars().next() {
                    Some(ch) => ch,
                    None => {
                        return Err(build_error(
                            line_number,
                            None,
                            remains,
                            "Pattern is empty".to_string(),
                        ))
                    }
                };
                rules""", """                let rule = Rule::try_from(quadruplet)?;
                if rule.pattern.is_empty() {
                    return Err(build_error(
                        line_number,
                        None,
                        remains,
                        "Pattern is empty".to_string(),
                    ));
                }
                let ch = rule.pattern.chars().next().unwrap();
                rules"""), ("src/daitch_mokotoff.rs", """        rules
            .values_mut()
            .for_each(|v| v.sort_by(|a, b| a.pattern.len().cmp(&b.pattern.len()).reverse()));
""", """        for same_start in rules.values_mut() {
            same_start.sort_by_key(|rule| std::cmp::Reverse(rule.pattern.len()));
        }
"""))
ref("lib-equal", ("src/lib.rs", "        let f = self.encode(first);\n        let s = self.encode(second);\n\n        f == s\n", """        if first == second {
            return true;
        }
        let f = self.encode(first);
        let s = self.encode(second);
        if f.len() != s.len() {
            return false;
        }

        f.chars().eq(s.chars())
"""))
ref("dm-interface", ("src/daitch_mokotoff.rs", "        self.inner_soundex(s, false)\n            .first()\n            .map(|v| v.to_string())\n            .unwrap_or_default()\n", """        match self.inner_soundex(s, false).into_iter().next() {
            Some(code) => code,
            None => String::new(),
        }
"""), ("src/daitch_mokotoff.rs", "        self.inner_soundex(value, true).join(\"|\")\n", "        let branching = true;\n        let codes = self.inner_soundex(value, branching);\n        codes.as_slice().join(\"|\")\n"))
ref("dmetaphone-interface", ("src/double_metaphone.rs", """        let result1 = self.double_metaphone(value1);
        let result2 = self.double_metaphone(value2);
        if alternate {
            result1.alternate == result2.alternate
        } else {
            result1.primary == result2.primary
        }
""", """        let code = |value: &str| {
            let result = self.double_metaphone(value);
            match alternate {
                true => result.alternate,
                false => result.primary,
            }
        };
        code(value2).as_str() == code(value1).as_str()
"""), ("src/double_metaphone.rs", "        self.double_metaphone(value).alternate\n", "        self.double_metaphone(value).alternate()\n"))
ref("bm-interface", ("src/beider_morse/mod.rs", "        self.max_phonemes = max_phonemes;\n        self\n", "        Self { max_phonemes, ..self }\n"),
    ("src/beider_morse/mod.rs", "        self.concat = concat;\n        self\n", "        let mut builder = self;\n        let _ = std::mem::replace(&mut builder.concat, concat);\n        builder\n"),
    ("src/beider_morse/engine.rs", "        let languages = self.lang.guess_languages(input);\n        self.encode_with_language_set(input, &languages)", "        self.encode_with_language_set(input, &self.lang.guess_languages(input))"),
    ("src/beider_morse/mod.rs", "        let lang = self.config_files.langs.get(&self.name_type).unwrap();\n        let rules = &self.config_files.rules;\n", "        let Self { config_files, .. } = self;\n        let ConfigFiles { langs, rules } = config_files;\n        let lang = langs.get(&self.name_type).unwrap();\n"))
ref("languages-sets", ("src/beider_morse/languages.rs", """                let languages = languages1
                    .intersection(languages2)
                    .cloned()
                    .collect::<BTreeSet<String>>();
                Self::SomeLanguages(languages)
""", """                let mut languages = languages1.clone();
                languages.retain(|l| languages2.contains(l));
                Self::SomeLanguages(languages)
"""), ("src/beider_morse/languages.rs", """                let languages = languages1
                    .union(languages2)
                    .cloned()
                    .collect::<BTreeSet<String>>();
                Self::SomeLanguages(languages)
""", """                let mut languages = languages2.clone();
                languages.extend(languages1.iter().cloned());
                Self::SomeLanguages(languages)
"""), ("src/beider_morse/languages.rs", "            (_, LanguageSet::Any) => other.clone(),\n            (_, LanguageSet::NoLanguages) => self.clone(),", "            (LanguageSet::Any, _) | (_, LanguageSet::Any) => Self::Any,\n            (_, LanguageSet::NoLanguages) => self.clone(),"),
    ("src/beider_morse/languages.rs", "languages.len() == 1,", "{\n                let mut all = languages.iter();\n                all.next().is_some() && all.next().is_none()\n            }"))
ref("new-options", ("src/metaphone.rs", "        Self { max_code_length }\n", "        let mut metaphone = Self::default();\n        metaphone.max_code_length = max_code_length;\n        metaphone\n"),
    ("src/phonex.rs", "        Self { max_code_length }\n", "        let limit = max_code_length;\n        Self {\n            max_code_length: limit,\n        }\n"))


FROM31 = """        let special_case_h_w = !has_silent_in_mapping(mapping);
        Self {
            mapping,
            special_case_h_w,
        }
    }
}

impl TryFrom<&str> for Soundex {"""
ref("soundex-from-new", ("src/soundex.rs", FROM31, """        Self::new(mapping, !mapping.contains(&SILENT))
    }
}

impl TryFrom<&str> for Soundex {"""))
ref("soundex-from-text", ("src/soundex.rs", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
    }
""", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let special_case_h_w = !mapping.contains(SILENT);
        let mapping: Vec<char> = mapping.chars().collect();
        match <[char; 26]>::try_from(mapping) {
            Ok(mapping) => Ok(Self {
                mapping,
                special_case_h_w,
            }),
            Err(rejected) => Err(rejected),
        }
    }
"""), ("src/soundex.rs", """    fn try_from(mapping: &str) -> Result<Self, Self::Error> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
    }
""", """    fn try_from(mapping: &str) -> Result<Self, Self::Error> {
        Self::from_str(mapping)
    }
"""))
ref("soundex-from-loop", ("src/soundex.rs", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
    }
""", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let chars: Vec<char> = mapping.chars().collect();
        if chars.len() != 26 {
            return Err(chars);
        }
        let mut mapping = ['0'; 26];
        for (slot, ch) in mapping.iter_mut().zip(chars) {
            *slot = ch;
        }
        let silent = mapping.iter().filter(|ch| **ch == SILENT).count();
        Ok(Self::new(mapping, silent == 0))
    }
"""))
ref("refined-from", ("src/refined_soundex.rs", """    fn try_from(mapping: &str) -> Result<Self, Self::Error> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self { mapping })
    }
""", """    fn try_from(mapping: &str) -> Result<Self, Self::Error> {
        let mut chars = Vec::with_capacity(mapping.len());
        chars.extend(mapping.chars());
        chars.try_into().map(|mapping| Self { mapping })
    }
"""), ("src/refined_soundex.rs", """        mapping.as_str().parse::<RefinedSoundex>()
""", """        Self::from_str(&mapping)
"""))
ref("soundex-silent-count", ("src/soundex.rs", """    mapping.iter().any(|c| c == &SILENT)
""", """    mapping.iter().filter(|c| **c == SILENT).count() > 0
"""))
ref("soundex-silent-position", ("src/soundex.rs", """    mapping.iter().any(|c| c == &SILENT)
""", """    mapping.iter().position(|&c| c == SILENT).is_some()
"""))
ref("soundex-from-counted", ("src/soundex.rs", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
    }
""", """    fn from_str(mapping: &str) -> Result<Self, Self::Err> {
        let chars: Vec<char> = mapping.chars().collect();
        if chars.len() != 26 {
            return Err(chars);
        }
        let mapping: [char; 26] = chars.try_into()?;
        Ok(Self::from(mapping))
    }
"""), ("src/soundex.rs", """    fn try_from(mapping: &str) -> Result<Self, Self::Error> {
        let mapping: [char; 26] = mapping.chars().collect::<Vec<char>>().try_into()?;
        Ok(Self::from(mapping))
    }
""", """    fn try_from(mapping: &str) -> Result<Self, Self::Error> {
        if mapping.chars().count() == 26 {
            let mut array = ['0'; 26];
            let mut chars = mapping.chars();
            for slot in array.iter_mut() {
                *slot = chars.next().unwrap_or('0');
            }
            Ok(Self::from(array))
        } else {
            Err(mapping.chars().collect())
        }
    }
"""))
CLEAN = """        value
            .chars()
            .filter(|c| c.is_alphabetic())
            .map(|c| c.to_uppercase().collect::<String>())
            .collect()
"""
ref("clean-filter-map", ("src/lib.rs", CLEAN, """        value
            .chars()
            .filter_map(|c| {
                if c.is_alphabetic() {
                    Some(c.to_uppercase())
                } else {
                    None
                }
            })
            .flatten()
            .collect()
"""))
ref("clean-retain", ("src/lib.rs", CLEAN, """        if value.is_empty() {
            return String::new();
        }
        let mut letters = value.to_string();
        letters.retain(|c| c.is_alphabetic());
        letters.chars().flat_map(char::to_uppercase).collect()
"""))
ref("clean-fast", ("src/lib.rs", CLEAN, """        let size = value.len();
        if value.bytes().all(|b| b.is_ascii_uppercase()) {
            return value.to_owned();
        }
        let mut result = String::with_capacity(size);
        for letter in value.chars().filter(|c| c.is_alphabetic()) {
            result.extend(letter.to_uppercase());
        }
        result
"""))
ref("caverphone-keep", ("src/helper.rs", """        .chars()
        .filter(|&c| c.is_ascii_lowercase())
        .collect::<String>()
""", """        .split(|c: char| !c.is_ascii_lowercase())
        .collect::<String>()
"""))
ref("caverphone-replace", ("src/helper.rs", """    string
        .chars()
        .filter(|&c| c.is_ascii_lowercase())
        .collect::<String>()
""", """    string.replace(|c: char| !c.is_ascii_lowercase(), "")
"""))
ref("dm-blanks", ("src/daitch_mokotoff.rs", """        let source = value
            .chars()
            .filter(|ch| !ch.is_whitespace())
""", """        let source = value
            .split_whitespace()
            .flat_map(str::chars)
"""))

# Third batch: other library functions.
ref("refined-dedup", ("src/refined_soundex.rs", """        let mut previous: Option<char> = None;

        for ch in value.chars() {
            let code_value = self.get_mapping_code(ch);
            if Some(code_value) != previous {
                code.push(code_value);
            }
            previous = Some(code_value);
        }

        code
""", """        let mut digits: Vec<char> = value.chars().map(|ch| self.get_mapping_code(ch)).collect();
        digits.dedup();
        code.extend(digits);
        code
"""))
ref("phonex-trim", ("src/phonex.rs", """        while input.ends_with('S') {
            input.pop();
        }
""", """        let kept = input.trim_end_matches('S').len();
        input.truncate(kept);
"""), ("src/phonex.rs", """        if first == Some('H') {
            input.remove(0);
        }
""", """        if let (Some('H'), Some(rest)) = (first, input.strip_prefix('H')) {
            input = rest.to_string();
        }
"""))
ref("phonex-pad", ("src/phonex.rs", """        while result.chars().count() < self.max_code_length {
            result.push('0');
        }

        result
""", """        let missing = self.max_code_length.saturating_sub(result.chars().count());
        result.extend(std::iter::repeat('0').take(missing));
        result
"""))
ref("mra-slices", ("src/match_rating_approach.rs", """        let length = value.chars().count();
        if length > 6 {
            value
                .chars()
                .take(3)
                .chain(value.chars().skip(length - 3))
                .collect()
        } else {
            value
        }
""", """        let letters: Vec<char> = value.chars().collect();
        match letters.len() {
            0..=6 => value,
            length => letters[..3].iter().chain(&letters[length - 3..]).collect(),
        }
"""))
ref("mra-retain", ("src/match_rating_approach.rs", """        let result = value.to_uppercase();

        let result = result
            .chars()
            .filter(|c| !CHAR_TO_TRIM.contains(c))
            .filter(|c| !c.is_whitespace())
            .collect();

""", """        let mut result = value.to_uppercase();
        result.retain(|c| !(c.is_whitespace() || CHAR_TO_TRIM.contains(&c)));

"""), ("src/match_rating_approach.rs", """                let position = UNICODE.iter().position(|ch| ch == &c);
                match position {
                    Some(index) => PLAIN_ASCII[index],
                    None => c,
                }
""", """                UNICODE
                    .iter()
                    .zip(PLAIN_ASCII)
                    .find_map(|(ch, plain)| (*ch == c).then_some(plain))
                    .unwrap_or(c)
"""))
ref("caverphone-take", ("src/caverphone.rs", """        let txt = txt + SIX_1;

        txt[0..SIX_1.len()].to_string()
""", """        txt.chars().chain(SIX_1.chars()).take(SIX_1.len()).collect()
"""), ("src/caverphone.rs", """        let txt = txt + TEN_1;

        txt[0..TEN_1.len()].to_string()
""", """        let mut code = String::with_capacity(txt.len() + TEN_1.len());
        code.push_str(&txt);
        code.push_str(TEN_1);
        code.truncate(TEN_1.len());
        code
"""))
ref("helper-strip", ("src/helper.rs", """pub fn replace_end<'a>(mut string: String, pattern: &'a str, to: &'a str) -> String {
    if string.ends_with(pattern) {
        string.replace_range(string.len() - pattern.len().., to);
    }
    string
}
""", """pub fn replace_end<'a>(string: String, pattern: &'a str, to: &'a str) -> String {
    match string.strip_suffix(pattern) {
        Some(stem) => [stem, to].concat(),
        None => string,
    }
}
"""))
ref("helper-compact", ("src/helper.rs", """    string.chars().for_each(|ch| {
        if chars.contains(&ch) {
            if let Some(prev) = previous {
                if prev != ch {
                    ret.push(ch.to_ascii_uppercase());
                    previous = Some(ch);
                }
            } else {
                ret.push(ch.to_ascii_uppercase());
                previous = Some(ch);
            }
        } else {
            ret.push(ch);
            previous = None;
        }
    });
""", """    for ch in string.chars() {
        if !chars.contains(&ch) {
            ret.push(ch);
            previous = None;
            continue;
        }
        if previous != Some(ch) {
            ret.push(ch.to_ascii_uppercase());
        }
        previous = Some(ch);
    }
"""))
ref("nysiis-slices", ("src/nysiis.rs", """        if tmp.starts_with(START_MAC) {
            tmp.replace_range(..3, "MCC");
        }
        if tmp.starts_with(START_KN) {
            tmp.replace_range(..2, "NN");
        }
        if tmp.starts_with(START_K) {
            tmp.replace_range(..1, "C");
        }
""", """        if let Some(rest) = tmp.strip_prefix(START_MAC) {
            tmp = format!("MCC{rest}");
        }
        for (start, replacement) in [(START_KN, "NN"), (START_K, "C")] {
            if let Some(rest) = tmp.strip_prefix(start) {
                tmp = replacement.to_string() + rest;
            }
        }
"""), ("src/nysiis.rs", """        if tmp.ends_with(END_EE) || tmp.ends_with(END_IE) {
            tmp.replace_range(tmp.len() - 2.., "Y")
        }
""", """        if [END_EE, END_IE].iter().any(|end| tmp.ends_with(end)) {
            tmp.truncate(tmp.len() - 2);
            tmp.push('Y');
        }
"""))
ref("cologne-filter", ("src/cologne.rs", """        let mut tmp = s.to_uppercase();
        tmp = tmp.replace('Ä', "A");
        tmp = tmp.replace('Ü', "U");
        tmp = tmp.replace('Ö', "O");
""", """        let tmp: String = s
            .to_uppercase()
            .chars()
            .map(|ch| match ch {
                'Ä' => 'A',
                'Ü' => 'U',
                'Ö' => 'O',
                other => other,
            })
            .collect();
"""))
ref("dm-pad", ("src/daitch_mokotoff.rs", """        while self.builder.chars().count() < MAX_LENGTH {
            self.builder.push('0');
        }
""", """        let length = self.builder.chars().count();
        if length < MAX_LENGTH {
            self.builder.push_str(&"000000"[length..]);
        }
"""), ("src/daitch_mokotoff.rs", """            let remaining = MAX_LENGTH.saturating_sub(self.builder.chars().count());
            self.builder.extend(replacement.chars().take(remaining));
""", """            for ch in replacement.chars() {
                if self.builder.chars().count() >= MAX_LENGTH {
                    break;
                }
                self.builder.push(ch);
            }
"""))
ref("soundex-for", ("src/soundex.rs", """        while count < code.len() {
            match iterator.next() {
                None => break,
                Some(ch) => {
                    if self.special_case_h_w && (ch == 'H' || ch == 'W') {
                        continue;
                    }
                    let digit = self.get_mapping_code(ch);
                    if digit == SILENT {
                        continue;
                    }
                    if digit != '0' && digit != previous {
                        code[count] = digit;
                        count += 1;
                    }

                    previous = digit;
                }
            }
        }
""", """        for ch in iterator.filter(|ch| !(self.special_case_h_w && matches!(ch, 'H' | 'W'))) {
            let digit = self.get_mapping_code(ch);
            if digit == SILENT {
                continue;
            }
            if digit != '0' && digit != previous {
                if let Some(place) = code.get_mut(count) {
                    *place = digit;
                }
                count += 1;
                if count >= code.len() {
                    break;
                }
            }
            previous = digit;
        }
"""))
ref("difference-count", ("src/lib.rs", """        if value1.is_empty() || value2.is_empty() {
            return 0;
        }

        let mut result: usize = 0;
        for (ch1, ch2) in value1.chars().zip(value2.chars()) {
            if ch1 == ch2 {
                result += 1;
            }
        }

        result
""", """        value1
            .chars()
            .zip(value2.chars())
            .filter(|(ch1, ch2)| ch1 == ch2)
            .count()
"""))
