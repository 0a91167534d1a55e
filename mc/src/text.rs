//! Reference meaning of texts, positions and deltas, written without looking at how the daemon
//! does it: a text is a sequence of Unicode characters, lines are separated by line feeds, and the
//! operations of a delta are ranges of the text before the delta.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Edit {
    pub start: (usize, usize),
    pub end: (usize, usize),
    pub text: String,
}

pub fn offset_to_pos(content: &str, offset: usize) -> (usize, usize) {
    let mut line = 0;
    let mut ch = 0;
    for c in content.chars().take(offset) {
        if c == '\n' {
            line += 1;
            ch = 0;
        } else {
            ch += 1;
        }
    }
    (line, ch)
}

/// Offset of a position that exists in the text.
pub fn pos_to_offset(content: &str, pos: (usize, usize)) -> Option<usize> {
    let mut line = 0;
    let mut ch = 0;
    let mut offset = 0;
    for c in content.chars() {
        if (line, ch) == pos {
            return Some(offset);
        }
        offset += 1;
        if c == '\n' {
            line += 1;
            ch = 0;
        } else {
            ch += 1;
        }
    }
    if (line, ch) == pos {
        Some(offset)
    } else {
        None
    }
}

/// Applies a delta. All ranges refer to `content`; they must exist and must not overlap.
pub fn apply(content: &str, delta: &[Edit]) -> Result<String, String> {
    let mut ops = vec![];
    for e in delta {
        let s = pos_to_offset(content, e.start)
            .ok_or_else(|| format!("position {:?} does not exist in {content:?}", e.start))?;
        let t = pos_to_offset(content, e.end)
            .ok_or_else(|| format!("position {:?} does not exist in {content:?}", e.end))?;
        let (s, t) = if s <= t { (s, t) } else { (t, s) };
        ops.push((s, t, e.text.as_str()));
    }
    // Several operations may start at the same place; then their order in the delta counts.
    ops.sort_by_key(|o| (o.0, o.1));
    let chars: Vec<char> = content.chars().collect();
    let mut out = String::new();
    let mut at = 0;
    for (s, t, text) in ops {
        if s < at {
            return Err(format!("overlapping operations in {delta:?}"));
        }
        out.extend(&chars[at..s]);
        out.push_str(text);
        at = t;
    }
    out.extend(&chars[at..]);
    Ok(out)
}

pub fn splice(content: &str, start: usize, len: usize, text: &str) -> String {
    let chars: Vec<char> = content.chars().collect();
    let mut out: String = chars[..start].iter().collect();
    out.push_str(text);
    out.extend(&chars[start + len..]);
    out
}

/// A single-range edit of `content` given by offsets.
pub fn edit_at(content: &str, start: usize, len: usize, text: &str) -> Edit {
    Edit {
        start: offset_to_pos(content, start),
        end: offset_to_pos(content, start + len),
        text: text.to_string(),
    }
}

pub fn len(content: &str) -> usize {
    content.chars().count()
}

/// All texts over `alphabet` with at most `max` characters.
pub fn all_texts(alphabet: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for t in &last {
            for c in alphabet {
                next.push(format!("{t}{c}"));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
