//! Independent byte-offset <-> LSP position mapping (UTF-16 columns, `\n` lines).
pub struct Index {
    pub text: String,
    starts: Vec<usize>,
}
impl Index {
    pub fn new(text: &str) -> Self {
        let mut starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Index { text: text.to_string(), starts }
    }
    pub fn pos(&self, off: usize) -> (u32, u32) {
        let line = match self.starts.binary_search(&off) {
            Ok(l) => l,
            Err(l) => l - 1,
        };
        let col: usize = self.text[self.starts[line]..off].chars().map(|c| c.len_utf16()).sum();
        (line as u32, col as u32)
    }
    pub fn range(&self, s: usize, e: usize) -> [u32; 4] {
        let (a, b) = self.pos(s);
        let (c, d) = self.pos(e);
        [a, b, c, d]
    }
    /// Offset of a position; None when it is not a character boundary inside the document.
    pub fn off(&self, line: u32, col: u32) -> Option<usize> {
        let s = *self.starts.get(line as usize)?;
        let end = self.starts.get(line as usize + 1).map(|e| e - 1).unwrap_or(self.text.len());
        let mut c = 0usize;
        for (i, ch) in self.text[s..end].char_indices() {
            if c == col as usize {
                return Some(s + i);
            }
            c += ch.len_utf16();
        }
        if c == col as usize {
            return Some(end);
        }
        None
    }
    pub fn valid_range(&self, r: [u32; 4]) -> bool {
        match (self.off(r[0], r[1]), self.off(r[2], r[3])) {
            (Some(a), Some(b)) => a <= b,
            _ => false,
        }
    }
    pub fn slice(&self, r: [u32; 4]) -> Option<&str> {
        let (a, b) = (self.off(r[0], r[1])?, self.off(r[2], r[3])?);
        if a <= b { Some(&self.text[a..b]) } else { None }
    }
    pub fn lines(&self) -> usize {
        self.starts.len()
    }
    pub fn line_len16(&self, line: usize) -> u32 {
        let s = self.starts[line];
        let end = self.starts.get(line + 1).map(|e| e - 1).unwrap_or(self.text.len());
        self.text[s..end].chars().map(|c| c.len_utf16() as u32).sum()
    }
}

/// Apply non-overlapping LSP edits; Err when ranges are invalid or overlap.
pub fn apply_edits(text: &str, edits: &[([u32; 4], String)]) -> Result<String, String> {
    let ix = Index::new(text);
    let mut v = vec![];
    for (r, n) in edits {
        match (ix.off(r[0], r[1]), ix.off(r[2], r[3])) {
            (Some(a), Some(b)) if a <= b => v.push((a, b, n.clone())),
            _ => return Err(format!("edit range {r:?} is not inside the document")),
        }
    }
    v.sort();
    let mut out = String::new();
    let mut p = 0;
    for (a, b, n) in v {
        if a < p {
            return Err(format!("overlapping edits at byte {a}"));
        }
        out.push_str(&text[p..a]);
        out.push_str(&n);
        p = b;
    }
    out.push_str(&text[p..]);
    Ok(out)
}
