//! Reference model of a document: a plain string plus its line and
//! grapheme-cluster structure, computed from scratch for every text.
//!
//! A line is ended by a line feed; a carriage return directly before it belongs
//! to the line break. A position exists iff its line exists and its offset is at
//! most the number of extended grapheme clusters of the line's body.
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct P {
    pub line: usize,
    pub offset: usize,
}

pub const fn p(line: usize, offset: usize) -> P {
    P { line, offset }
}

#[derive(Clone, Debug)]
pub struct Line {
    /// Byte offset of the line's first byte.
    pub start: usize,
    /// Byte offset of the end of its body (before any line break).
    pub body_end: usize,
    /// Byte offset after its line break (== body_end on the last line).
    pub end: usize,
    /// Absolute byte offset of every cluster start, plus body_end.
    pub cuts: Vec<usize>,
}

impl Line {
    /// Number of clusters in the body.
    pub fn count(&self) -> usize {
        self.cuts.len() - 1
    }
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub lines: Vec<Line>,
}

impl Doc {
    pub fn new<S: Into<String>>(text: S) -> Doc {
        let text: String = text.into();
        let bytes = text.as_bytes();
        let mut lines = Vec::new();
        let mut start = 0;
        loop {
            let nl = bytes[start..].iter().position(|&b| b == b'\n').map(|i| start + i);
            let (body_end, end) = match nl {
                Some(i) => {
                    let be = if i > start && bytes[i - 1] == b'\r' { i - 1 } else { i };
                    (be, i + 1)
                }
                None => (bytes.len(), bytes.len()),
            };
            let body = &text[start..body_end];
            let mut cuts: Vec<usize> = if body.is_ascii() && !body.contains('\r') {
                (start..body_end).collect()
            } else {
                body.grapheme_indices(true).map(|(i, _)| start + i).collect()
            };
            cuts.push(body_end);
            lines.push(Line { start, body_end, end, cuts });
            if nl.is_none() {
                break;
            }
            start = end;
        }
        Doc { text, lines }
    }

    pub fn line_count(&self) -> usize {
        self.lines.len()
    }

    pub fn last_line(&self) -> usize {
        self.lines.len() - 1
    }

    pub fn count(&self, line: usize) -> Option<usize> {
        self.lines.get(line).map(|l| l.count())
    }

    /// Byte offset of a position, if it exists.
    pub fn byte(&self, pos: P) -> Option<usize> {
        self.lines.get(pos.line).and_then(|l| l.cuts.get(pos.offset)).copied()
    }

    pub fn exists(&self, pos: P) -> bool {
        self.byte(pos).is_some()
    }

    /// The end of the document as a position.
    pub fn end(&self) -> P {
        p(self.last_line(), self.lines[self.last_line()].count())
    }

    /// The position whose byte offset is exactly `byte`, if there is one.
    pub fn pos_at(&self, byte: usize) -> Option<P> {
        let li = self.line_of_byte(byte);
        self.lines[li].cuts.binary_search(&byte).ok().map(|o| p(li, o))
    }

    pub fn line_of_byte(&self, byte: usize) -> usize {
        match self.lines.binary_search_by(|l| l.start.cmp(&byte)) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }

    /// The last position at or before a byte offset.
    pub fn pos_at_or_before(&self, byte: usize) -> P {
        let li = self.line_of_byte(byte);
        let l = &self.lines[li];
        let o = match l.cuts.binary_search(&byte) {
            Ok(o) => o,
            Err(o) => o.saturating_sub(1),
        };
        p(li, o)
    }

    pub fn read(&self, a: P, b: P) -> Option<&str> {
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        match (self.byte(a), self.byte(b)) {
            (Some(x), Some(y)) => Some(&self.text[x..y]),
            _ => None,
        }
    }

    /// Result of inserting at a position (unchanged if it does not exist).
    pub fn insert(&self, pos: P, s: &str) -> String {
        match self.byte(pos) {
            Some(b) => {
                let mut t = String::with_capacity(self.text.len() + s.len());
                t.push_str(&self.text[..b]);
                t.push_str(s);
                t.push_str(&self.text[b..]);
                t
            }
            None => self.text.clone(),
        }
    }

    /// Byte range a delete of `a..b` removes (None if the start does not exist).
    pub fn delete_span(&self, a: P, b: P) -> Option<(usize, usize)> {
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let s = self.byte(a)?;
        let e = match self.byte(b) {
            Some(e) => e,
            // The end does not exist: stop after the line break of the end's line,
            // or at the end of the document when no line follows it.
            None => match b.line.checked_add(1).and_then(|l| self.lines.get(l)) {
                Some(l) => l.start,
                None => self.text.len(),
            },
        };
        Some((s, e))
    }

    pub fn delete(&self, a: P, b: P) -> String {
        match self.delete_span(a, b) {
            Some((s, e)) => format!("{}{}", &self.text[..s], &self.text[e..]),
            None => self.text.clone(),
        }
    }

    /// Byte span removed by a single delete at a position.
    pub fn delete_here_span(&self, at: P) -> Option<(usize, usize)> {
        let s = self.byte(at)?;
        let l = &self.lines[at.line];
        let e = if at.offset < l.count() { l.cuts[at.offset + 1] } else { l.end };
        Some((s, e))
    }

    pub fn delete_here(&self, at: P) -> String {
        match self.delete_here_span(at) {
            Some((s, e)) => format!("{}{}", &self.text[..s], &self.text[e..]),
            None => self.text.clone(),
        }
    }

    /// Every existing position, in document order.
    pub fn positions(&self) -> Vec<P> {
        let mut v = Vec::new();
        for (i, l) in self.lines.iter().enumerate() {
            for o in 0..=l.count() {
                v.push(p(i, o));
            }
        }
        v
    }
}

/// Length of the common prefix of two texts in bytes, cut back to a char boundary.
pub fn common_prefix(a: &str, b: &str) -> usize {
    let mut n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    while !a.is_char_boundary(n) || !b.is_char_boundary(n) {
        n -= 1;
    }
    n
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn lines_and_spans() {
        let d = Doc::new("ae\u{301}\r\n\r\r\nx");
        assert_eq!(d.line_count(), 3);
        assert_eq!(d.count(0), Some(2));
        assert_eq!(d.count(1), Some(1));
        assert_eq!(d.count(2), Some(1));
        assert_eq!(d.read(p(0, 1), p(1, 0)), Some("e\u{301}\r\n"));
        assert_eq!(d.delete(p(0, 0), p(0, 9)), "\r\r\nx");
        assert_eq!(d.delete(p(0, 0), p(2, 9)), "");
        assert_eq!(d.delete_here(p(0, 2)), "ae\u{301}\r\r\nx");
        assert_eq!(Doc::new("").line_count(), 1);
        assert_eq!(Doc::new("\n").positions().len(), 2);
    }
}
