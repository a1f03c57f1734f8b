//! Text-level inputs for the parser: mutated documents and token soup. Nesting stays bounded, the
//! parser is recursive by design.

use crate::src::Src;

pub const VOCAB: [&str; 96] = [
    "{", "}", "[", "]", "(", ")", "=", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "!", "&&", "||", "&", "|", "?", ":", "::", ",", ".", "..",
    "...", "=>", "\"", "\\", "\\\"", "\\u00e9", "\\u12", "\\U0001F600", "\\Uffffffff", "\\ud800", "\\q", "${", "%{", "$${", "%%{", "${~", "~}", "%{~", "~", "$", "%",
    "if", "else", "endif", "for", "endfor", "in", "null", "true", "false", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "#", "//", "/*", "*/", "# c\n", "// c\n",
    "/* c */", "<<EOT", "<<-EOT", "EOT", "<<EOT\nx\nEOT\n", "<<-EOT\n  x\n EOT\n", "a", "b", "foo", "a.b", "f(x)", "_", "é", "日本", "\u{301}", "0", "1", "01", "1.5", "1e9", "1e999", "18446744073709551616", "\u{feff}", "\0",
];

/// Number of unclosed openers anywhere in the text, an upper bound for the nesting depth.
pub fn depth(t: &str) -> usize {
    let (mut d, mut max) = (0usize, 0usize);
    for c in t.chars() {
        match c {
            '{' | '[' | '(' | '!' | '-' | '?' | '"' | '<' => {
                d += 1;
                max = max.max(d);
            }
            '}' | ']' | ')' => d = d.saturating_sub(1),
            _ => {}
        }
    }
    max
}

pub fn soup(s: &mut Src) -> String {
    let mut out = String::new();
    let mut n = 0;
    let max = s.size * 2;
    while s.more(n, 20, max) {
        n += 1;
        match s.weighted(&[6, 1, 1]) {
            0 => out.push_str(s.pick(&VOCAB)),
            1 => out.push(crate::gen::ch(s)),
            _ => {
                out.push_str(s.pick(&["a = ", "b {\n", "}\n", "a = \"", "\"\n", "x = [", "y = {", "f(", "[for x in y : ", "{for k, v in y : k => v", " if ", "\"${", "}\"", "a \"l\" {\n", "a = <<-E\n", "\nE\n", "%{ if a }", "%{ else }", "%{ endif }", "%{ for x in y }", "%{ endfor }"]));
            }
        }
    }
    out
}

/// A few random edits at character level, or whole tokens.
pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    let n = 1 + s.weighted(&[6, 2, 1, 1]);
    for _ in 0..n {
        if cs.is_empty() {
            cs.extend(s.pick(&VOCAB).chars());
            continue;
        }
        let i = s.below(cs.len());
        match s.weighted(&[3, 4, 2, 1, 1, 1]) {
            0 => {
                let k = (i + s.range(1, 4)).min(cs.len());
                cs.drain(i..k);
            }
            1 => {
                let t: Vec<char> = s.pick(&VOCAB).chars().collect();
                cs.splice(i..i, t);
            }
            2 => cs[i] = crate::gen::ch(s),
            3 => {
                // Duplicate a stretch elsewhere.
                let k = (i + s.range(1, 12)).min(cs.len());
                let part: Vec<char> = cs[i..k].to_vec();
                let at = s.below(cs.len() + 1);
                cs.splice(at..at, part);
            }
            4 => {
                let j = s.below(cs.len());
                cs.swap(i, j);
            }
            _ => cs.truncate(i),
        }
    }
    cs.into_iter().collect()
}
