T = "src/nameserver/zones/tokens.rs"
LOAD = '''use ariadne_dns::nameserver::{parse_zone_files, ManagedZone, ParsingParams};
use ariadne_dns::shared::dns::{Name, Record, RecordType};
fn load(text: &str) -> Result<ManagedZone, String> {
    let f = format!("%s/zone.%%d", std::env::temp_dir().display()).replace("%%d", &std::process::id().to_string());
    std::fs::write(&f, text).unwrap();
    let r = parse_zone_files(ParsingParams { file_path: f.clone(), zone: Name::from_string("example.").unwrap(), starting_ttl: 60, sub_zones: vec![] });
    let _ = std::fs::remove_file(&f);
    r.map_err(|e| format!("{:?}", e))
}
fn txts(z: &ManagedZone, n: &str) -> Vec<Vec<String>> {
    match z.auth_zone.get(&Name::from_string(n).unwrap(), RecordType::TXT) {
        None => vec![],
        Some(v) => v.iter().map(|r| match r { Record::TXT { txts, .. } => txts.clone(), _ => vec![] }).collect(),
    }
}
const TOP: &str = "@ IN SOA ns mail 1 2 3 4 0\\n@ NS ns.other.\\n";
'''.replace("%s", "{}").replace('format!("{}/zone.%%d", std::env::temp_dir().display()).replace("%%d", &std::process::id().to_string())', 'format!("{}/zone.{}", std::env::temp_dir().display(), std::process::id())')

plant("C09-escape-end", "C09", [(T, "if self.pos + 1 >= self.line_chars.len() {", "if self.pos >= self.line_chars.len() {")],
    "a backslash which is the last character of a line",
    "reading the file panics instead of ending with an error",
    LOAD + '''fn main() {
    assert!(load(&format!("{}a TXT b\\n", TOP)).is_ok());
    assert!(load(&format!("{}a TXT b\\\\\\n", TOP)).is_err());
}
''')

plant("C09-indented-comment", "C09", [(T, "!clean_line.is_empty() && !clean_line.starts_with(';')", "!clean_line.is_empty() && !line.starts_with(';')")],
    "a line which holds spaces and then only a comment",
    "the line is not dropped: it gives a blank and a newline",
    LOAD + '''fn main() {
    assert!(load(&format!("{};c\\na TXT b\\n", TOP)).is_ok());
    let r = load(&format!("{}   ; c\\na TXT b\\n", TOP));
    assert!(r.is_ok(), "{:?}", r.err());
}
''')

plant("C09-quoted-escape", "C09", [(T, """            if ch == '\\\\' {
                let ch = self.parse_escape()?;
                string.push(ch);
                continue;
            }""", """            if ch == '\\\\' && self.pos + 1 < self.line_chars.len() && self.line_chars[self.pos + 1] == '"' {
                let ch = self.parse_escape()?;
                string.push(ch);
                continue;
            }""")],
    "an escaped character other than a quote in a quoted string",
    "the backslash is kept, and an escaped backslash before the closing quote takes the quote",
    LOAD + '''fn main() {
    let z = load(&format!("{}a TXT \\"x\\\\\\"y\\"\\n", TOP)).unwrap();
    assert_eq!(txts(&z, "a.example."), vec![vec!["x\\"y".to_string()]]);
    let z = load(&format!("{}a TXT \\"x\\\\;y\\"\\n", TOP)).unwrap();
    assert_eq!(txts(&z, "a.example."), vec![vec!["x;y".to_string()]]);
}
''')

plant("C09-comment-in-parens", "C09", [(T, """                if !self.multiline {
                    return Ok(Token::NewLine);
                }""", """                if !self.multiline || self.line_chars[self.pos] == '(' {
                    return Ok(Token::NewLine);
                }"""), (T, """        if self.multiline {
            Err(TokenErr::MlUnexpectedOpen)
        } else {
            self.multiline = true;""", """        if self.multiline && self.pos > 0 {
            Err(TokenErr::MlUnexpectedOpen)
        } else {
            self.multiline = true;""")],
    "an opening parenthesis at the start of a line inside parentheses",
    "nested parentheses are accepted, and end the line",
    LOAD + '''fn main() {
    assert!(load(&format!("{}a TXT ( b\\n c )\\n", TOP)).is_ok());
    assert!(load(&format!("{}a TXT ( b\\n( c )\\n", TOP)).is_err());
    assert!(load(&format!("{}a TXT ( b\\n(a TXT c )\\n", TOP)).is_err(), "nested parentheses accepted");
}
''')
