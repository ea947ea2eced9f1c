//! What mail relays, editors and terminals do to text on its way, aimed at
//! places where the format says that a strict reader has to notice (C14). The
//! places are found in the intact document, whose layout is the encoder's.

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Mangling {
    /// a line moves to an indentation between two levels
    Indent,
    /// spaces of the indentation become a tab
    TabIndent,
    /// an entry moves below an entry that has a value
    Deeper,
    /// a blank line inside an array
    Blank,
    CellLost,
    CellAdded,
    /// the number in a header
    Count,
    Escape,
    QuoteLost,
    ColonLost,
    /// a line is broken at a space
    Wrap,
    /// the tabs of a row or an inline array become spaces
    Detab,
    /// the ends of all lines
    Crlf,
    /// blank lines at the end
    EndBlank,
    // noise in the layout, which carries no data (C19)
    /// blank lines anywhere
    Blanks,
    /// all lines nested below one line move deeper
    Shift,
    /// spaces around separators and after colons
    Spaces,
    /// spaces at the ends of lines
    LineEnds,
}
use Mangling::*;
pub const ALL: [Mangling; 14] = [
    Indent, TabIndent, Deeper, Blank, CellLost, CellAdded, Count, Escape, QuoteLost, ColonLost, Wrap, Detab, Crlf, EndBlank,
];

pub const NOISE: [Mangling; 6] = [Blanks, Shift, Spaces, LineEnds, Crlf, EndBlank];

/// Whether a strict reader has to look past the noise, too.
pub fn harmless(m: Mangling) -> bool {
    matches!(m, Spaces | LineEnds | Crlf | EndBlank)
}

/// Whether any text can have the noise, not only what the encoder writes.
pub fn anywhere(m: Mangling) -> bool {
    !matches!(m, Shift | Spaces)
}

/// The text with some noise.
pub fn noise(t: &str, step: usize, m: Mangling, site: u64, arg: u64) -> String {
    let mut r = crate::rng::Rng::new(site ^ arg << 20);
    let mut out = String::new();
    if m == Spaces {
        let mut places: Vec<usize> = vec![];
        for l in lines(t) {
            places.extend(l.seps.iter().flat_map(|i| [*i, i + 1]));
            places.extend(l.colon.filter(|_| l.value).map(|c| c + 1));
        }
        places.sort();
        let some = r.log(places.len().max(1) as u64);
        let all = places.len() as u64;
        places.retain(|_| r.below(all) < some);
        let mut at = 0;
        for p in places {
            out.push_str(&t[at..p]);
            out.push_str(&" ".repeat(r.log(3) as usize));
            at = p;
        }
        return out + &t[at..];
    }
    let n = t.split_inclusive('\n').count() as u64;
    let some = r.log(n.max(1));
    let block = if m == Shift { block(t, step, site) } else { 0..0 };
    let mut at = 0;
    for l in t.split_inclusive('\n') {
        let hit = r.below(n) < some;
        let start = at;
        at += l.len();
        match m {
            Shift if block.contains(&start) => {
                out.push_str(&" ".repeat(1 + (arg % 4) as usize));
                out.push_str(l);
            }
            Blanks if hit => {
                for _ in 0..r.log(3) {
                    out.push_str(&" ".repeat(if r.one_in(2) { 0 } else { r.below(9) as usize }));
                    out.push_str(&"\t".repeat(if r.one_in(6) { r.log(3) as usize } else { 0 }));
                    out.push('\n');
                }
                out.push_str(l);
            }
            LineEnds if hit => {
                let body = l.strip_suffix('\n').unwrap_or(l);
                let body = body.strip_suffix('\r').unwrap_or(body);
                out.push_str(body);
                out.push_str(&" ".repeat(r.log(4) as usize));
                out.push_str(&l[body.len()..]);
            }
            Crlf if (hit || arg % 2 == 0) && l.ends_with('\n') && !l.ends_with("\r\n") => {
                out.push_str(&l[..l.len() - 1]);
                out.push_str("\r\n");
            }
            _ => out.push_str(l),
        }
    }
    if m == EndBlank {
        out.push_str(&"\n".repeat(1 + (arg % 3) as usize));
    }
    out
}

/// The lines nested below some line.
fn block(t: &str, step: usize, site: u64) -> std::ops::Range<usize> {
    let ls = lines(t);
    let below = |i: usize| {
        let l = &ls[i];
        let level = if l.item && !(l.header.is_some_and(|h| h.0 == l.body)) { l.indent + step } else { l.indent };
        i + 1..i + 1 + ls[i + 1..].iter().take_while(|x| x.indent > level).count()
    };
    let all: Vec<_> = (0..ls.len()).filter(|i| !ls[*i].row && ls[*i].colon.is_some() && !ls[*i].value).map(below).filter(|b| !b.is_empty()).collect();
    match all.len() {
        0 => 0..0,
        n => {
            let b = &all[(site % n as u64) as usize];
            ls[b.start].at..ls[b.end - 1].end
        }
    }
}

/// Whether the reader may still deliver the original data.
pub fn forgivable(m: Mangling) -> bool {
    !matches!(m, Indent | TabIndent | Blank)
}

/// Whether the damage can only be noticed in its own line.
pub fn local(m: Mangling) -> bool {
    matches!(m, Indent | TabIndent | Blank | CellLost | CellAdded | Count | Escape | Detab)
}

#[derive(Debug, Default, Clone)]
struct Line {
    at: usize,
    end: usize,
    indent: usize,
    /// starts with a hyphen
    item: bool,
    /// after indentation and hyphen
    body: usize,
    /// a line of a table
    row: bool,
    colon: Option<usize>,
    /// '[' and ']' of the header
    header: Option<(usize, usize)>,
    table: bool,
    /// something follows the colon
    value: bool,
    /// quoted strings: opening and closing quote
    quotes: Vec<(usize, usize)>,
    /// separators between cells or elements
    seps: Vec<usize>,
    /// where cells or elements start
    cells: usize,
}

fn lines(t: &str) -> Vec<Line> {
    let b = t.as_bytes();
    let mut out: Vec<Line> = vec![];
    let mut at = 0;
    let (mut rows, mut rowsep) = (0u64, b',');
    for text in t.split('\n') {
        let end = at + text.len();
        if !t.is_empty() && text.trim_matches([' ', '\t', '\r']).is_empty() {
            at = end + 1;
            continue;
        }
        let indent = text.len() - text.trim_start_matches(' ').len();
        let mut l = Line { at, end, indent, body: at + indent, row: rows > 0, ..Line::default() };
        rows = rows.saturating_sub(1);
        if !l.row && (&b[l.body..end] == b"-" || b[l.body..end].starts_with(b"- ")) {
            l.item = true;
            l.body = (l.body + 2).min(end);
        }
        let (mut open, mut brace) = (None, false);
        let mut sep = rowsep;
        let mut i = l.body;
        l.cells = l.body;
        while i < end {
            match b[i] {
                b'"' => {
                    let q = i;
                    i += 1;
                    while i < end && b[i] != b'"' {
                        i += if b[i] == b'\\' { 2 } else { 1 };
                    }
                    if i < end {
                        l.quotes.push((q, i));
                    }
                }
                b'[' if !l.row && l.colon.is_none() && open.is_none() => open = Some(i),
                b']' if !l.row && l.colon.is_none() && l.header.is_none() && open.is_some() => {
                    l.header = Some((open.unwrap(), i));
                    sep = match b[i - 1] {
                        c @ (b'\t' | b'|') => c,
                        _ => b',',
                    };
                }
                b'{' if !l.row && l.colon.is_none() && l.header.is_some() => brace = true,
                b':' if !l.row && l.colon.is_none() => {
                    l.colon = Some(i);
                    l.value = i + 1 < end;
                    l.cells = i + 2;
                    if brace {
                        l.table = true;
                        rowsep = sep;
                        rows = number(b, l.header.unwrap());
                    }
                }
                c if c == sep && (l.row || l.header.is_some() && l.colon.is_some()) => l.seps.push(i),
                _ => {}
            }
            i += 1;
        }
        out.push(l);
        at = end + 1;
    }
    out
}

fn number(b: &[u8], (o, c): (usize, usize)) -> u64 {
    b[o + 1..c].iter().take_while(|x| x.is_ascii_digit()).fold(0u64, |n, x| n.saturating_mul(10).saturating_add((x - b'0') as u64))
}

fn splice(t: &str, from: usize, to: usize, with: &str) -> String {
    format!("{}{}{}", &t[..from], with, &t[to..])
}

/// Steps through a quoted string, over places where something can be inserted.
fn inside(b: &[u8], (o, c): (usize, usize)) -> Vec<usize> {
    let mut out = vec![];
    let mut i = o + 1;
    while i < c {
        out.push(i);
        i += if b[i] == b'\\' { 2 } else { 1 };
        while i < c && (b[i] & 0xC0) == 0x80 {
            i += 1;
        }
    }
    out.push(c);
    out
}

/// The mangled text; None: nothing to mangle in that way.
pub fn apply(t: &str, step: usize, m: Mangling, site: u64, arg: u64) -> Option<String> {
    if t.is_empty() {
        return None;
    }
    let b = t.as_bytes();
    let ls = lines(t);
    let pick = |n: usize| if n == 0 { None } else { Some((site % n as u64) as usize) };
    let of = |f: &dyn Fn(usize, &Line) -> bool| -> Option<usize> {
        let v: Vec<usize> = ls.iter().enumerate().filter(|(i, l)| f(*i, l)).map(|x| x.0).collect();
        pick(v.len()).map(|i| v[i])
    };
    match m {
        Indent => {
            if step < 2 {
                return None;
            }
            let l = &ls[of(&|_, _| true)?];
            let max = l.indent + 2 * step;
            let n = (0..max).filter(|n| n % step != 0).nth((arg % (max - max / step - 1).max(1) as u64) as usize)?;
            Some(splice(t, l.at, l.at + l.indent, &" ".repeat(n)))
        }
        TabIndent => {
            let l = &ls[of(&|_, _| true)?];
            Some(match arg % 3 {
                0 if l.indent > 0 => splice(t, l.at, l.at + l.indent, &"\t".repeat(l.indent.div_ceil(step))),
                1 => splice(t, l.at + l.indent, l.at + l.indent, "\t"),
                _ => splice(t, l.at, l.at, "\t"),
            })
        }
        Deeper => {
            let i = of(&|i, l| {
                i > 0 && !l.row && !l.item && l.colon.is_some() && {
                    let p = &ls[i - 1];
                    let level = if p.item { p.indent + step } else { p.indent };
                    !p.row && p.colon.is_some() && p.value && l.indent == level
                }
            })?;
            let n = 1 + ls[i + 1..].iter().take_while(|x| x.indent > ls[i].indent).count();
            let mut s = t.to_string();
            for l in ls[i..i + n].iter().rev() {
                s.insert_str(l.at, &" ".repeat(step));
            }
            Some(s)
        }
        Blank => {
            let mut places = vec![];
            for (h, l) in ls.iter().enumerate() {
                let Some(x) = l.header else { continue };
                if l.value || number(b, x) == 0 {
                    continue;
                }
                let keyed = x.0 > l.body;
                let level = l.indent + if l.item && keyed { 2 * step } else { step };
                for i in h + 1..ls.len() {
                    if ls[i].indent < level {
                        break;
                    }
                    if i > h + 1 && (l.table || ls[i].item) && ls[i].indent == level {
                        places.push(ls[i].at);
                    }
                }
            }
            places.sort();
            places.dedup();
            let at = places[pick(places.len())?];
            Some(splice(t, at, at, &format!("{}\n", " ".repeat((arg % 4) as usize * (arg as usize / 4 % 3)))))
        }
        CellLost => {
            let l = &ls[of(&|_, l| l.row && !l.seps.is_empty() || l.header.is_some() && l.value)?];
            let i = (arg % (l.seps.len() as u64 + 1)) as usize;
            Some(if l.seps.is_empty() {
                splice(t, l.cells - 1, l.end, "")
            } else if i == 0 {
                splice(t, l.cells, l.seps[0] + 1, "")
            } else {
                splice(t, l.seps[i - 1], *l.seps.get(i).unwrap_or(&l.end), "")
            })
        }
        CellAdded => {
            let i = of(&|_, l| l.row || l.header.is_some() && l.value)?;
            let l = &ls[i];
            let h = ls[..=i].iter().rev().find_map(|x| if x.row { None } else { x.header })?;
            let d = match b[h.1 - 1] {
                b'\t' => "\t",
                b'|' => "|",
                _ => ",",
            };
            let c = ["1", "x", "\"\"", "null", "\"a b\"", ""][(arg % 6) as usize];
            let k = (arg / 6 % (l.seps.len() as u64 + 2)) as usize;
            Some(if k <= l.seps.len() {
                let at = if k == 0 { l.cells } else { l.seps[k - 1] + 1 };
                splice(t, at, at, &format!("{c}{d}"))
            } else {
                splice(t, l.end, l.end, &format!("{d}{c}"))
            })
        }
        Count => {
            let l = &ls[of(&|_, l| l.header.is_some())?];
            let (o, _) = l.header.unwrap();
            let n = number(b, l.header.unwrap());
            let digits = b[o + 1..].iter().take_while(|x| x.is_ascii_digit()).count();
            let k = match arg % 6 {
                0 => n + 1,
                1 if n > 0 => n - 1,
                2 => n + 10,
                3 => n * 10,
                4 => n / 10,
                _ => n ^ 1,
            };
            if k == n {
                return None;
            }
            Some(splice(t, o + 1, o + 1 + digits, &k.to_string()))
        }
        Escape => {
            let q: Vec<_> = ls.iter().flat_map(|l| l.quotes.iter().copied()).collect();
            let p = inside(b, q[pick(q.len())?]);
            let at = p[(arg % p.len() as u64) as usize];
            let c = *[" ", "x", "q", "a", "0", "v", "N", "'", "é", "z", ",", "ud800", "udfff", "uzz", "U0041"].get((arg / 64 % 15) as usize)?;
            Some(splice(t, at, at, &format!("\\{c}")))
        }
        QuoteLost => {
            // a quote further on in the line could close the string again
            let q: Vec<_> = ls.iter().filter_map(|l| l.quotes.last().copied()).collect();
            let (_, c) = q[pick(q.len())?];
            Some(splice(t, c, c + 1, ""))
        }
        ColonLost => {
            let i = of(&|i, l| {
                l.colon.is_some()
                    && ls.len() > 1
                    && (!l.item || ls.get(i + 1).is_some_and(|n| n.indent > l.indent))
            })?;
            let c = ls[i].colon.unwrap();
            Some(splice(t, c, c + 1, ""))
        }
        Wrap => {
            let p: Vec<usize> = ls.iter().flat_map(|l| (l.body..l.end).filter(|i| b[*i] == b' ')).collect();
            let at = p[pick(p.len())?];
            Some(splice(t, at, at + 1, "\n"))
        }
        Detab => {
            let tabs = |l: &Line| l.seps.first().is_some_and(|i| b[*i] == b'\t');
            let l = &ls[of(&|_, l| tabs(l) && (l.row || l.value))?];
            let from = if l.row { l.at } else { l.cells };
            let line = t[from..l.end].replace('\t', &" ".repeat([1, 2, 4, 8][(arg % 4) as usize]));
            Some(splice(t, from, l.end, &line))
        }
        Crlf => Some(t.replace('\n', "\r\n")),
        EndBlank => Some(format!("{t}{}", "\n".repeat(1 + (arg % 3) as usize))),
        Blanks | Shift | Spaces | LineEnds => Some(noise(t, step, m, site, arg)),
    }
}

pub fn name(m: Mangling) -> &'static str {
    match m {
        Indent => "indentation_shifted",
        TabIndent => "indentation_tabbed",
        Deeper => "entry_moved_deeper",
        Blank => "blank_line_in_array",
        CellLost => "cell_lost",
        CellAdded => "cell_added",
        Count => "count_changed",
        Escape => "escape_broken",
        QuoteLost => "quote_lost",
        ColonLost => "colon_lost",
        Wrap => "line_wrapped",
        Detab => "tabs_expanded",
        Crlf => "crlf",
        EndBlank => "blank_lines_at_end",
        Blanks => "blank_lines",
        Spaces => "spaces_around_separators",
        Shift => "block_moved_deeper",
        LineEnds => "spaces_at_line_ends",
    }
}
