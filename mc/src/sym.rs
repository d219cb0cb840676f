//! Strict parser for Breakpad symbol files; its errors are the well-formedness oracle.
#![allow(dead_code)]

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Inl {
    pub depth: u32,
    pub line: u64,
    pub file: usize,
    pub origin: usize,
    pub ranges: Vec<(u64, u64)>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ln {
    pub addr: u64,
    pub size: u64,
    pub line: u64,
    pub file: usize,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Rec {
    pub public: bool,
    pub multiple: bool,
    pub addr: u64,
    pub size: u64,
    pub param: u64,
    pub name: String,
    pub inlines: Vec<Inl>,
    pub lines: Vec<Ln>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sym {
    pub os: String,
    pub cpu: String,
    pub id: String,
    pub name: String,
    pub infos: Vec<String>,
    pub files: Vec<String>,
    pub origins: Vec<String>,
    pub recs: Vec<Rec>,
    pub stack: Vec<String>,
}

fn hex(s: &str) -> Result<u64, String> {
    if s.is_empty() || s.len() > 16 || !s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c)) {
        return Err(format!("not a hex number: {s:?}"));
    }
    u64::from_str_radix(s, 16).map_err(|e| e.to_string())
}
fn dec(s: &str) -> Result<u64, String> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("not a decimal number: {s:?}"));
    }
    s.parse().map_err(|_| format!("not a decimal number: {s:?}"))
}
fn name(s: &str) -> Result<String, String> {
    if s.trim().is_empty() {
        return Err("empty name".into());
    }
    Ok(s.to_string())
}

/// Parses the whole text; an error names the offending line.
pub fn parse(data: &[u8]) -> Result<Sym, String> {
    let text = std::str::from_utf8(data).map_err(|e| format!("output is not UTF-8: {e}"))?;
    if text.is_empty() {
        return Err("empty output".into());
    }
    if !text.ends_with('\n') {
        return Err("last line is not terminated".into());
    }
    let mut s = Sym::default();
    // 0 nothing, 1 module, 2 info, 3 file, 4 origin, 5 records, 6 stack
    let mut stage = 0;
    for (no, line) in text[..text.len() - 1].split('\n').enumerate() {
        parse_line(&mut s, &mut stage, line).map_err(|e| format!("line {}: {e}: {line:?}", no + 1))?;
    }
    if stage == 0 {
        return Err("no MODULE record".into());
    }
    for r in &s.recs {
        for l in &r.lines {
            if l.file >= s.files.len() {
                return Err(format!("line record at {:x} uses undefined file {}", l.addr, l.file));
            }
        }
        for i in &r.inlines {
            if i.file >= s.files.len() {
                return Err(format!("INLINE record in {:x} uses undefined file {}", r.addr, i.file));
            }
            if i.origin >= s.origins.len() {
                return Err(format!("INLINE record in {:x} uses undefined origin {}", r.addr, i.origin));
            }
        }
    }
    Ok(s)
}

fn parse_line(s: &mut Sym, stage: &mut u32, line: &str) -> Result<(), String> {
    if let Some(c) = line.chars().find(|c| c.is_ascii_control()) {
        return Err(format!("control character {c:?} in record"));
    }
    let go = |stage: &mut u32, to: u32| -> Result<(), String> {
        if *stage > to {
            return Err("record out of order".into());
        }
        *stage = to;
        Ok(())
    };
    let (kw, rest) = line.split_once(' ').unwrap_or((line, ""));
    match kw {
        "MODULE" => {
            if *stage != 0 {
                return Err("second MODULE record".into());
            }
            *stage = 1;
            let p: Vec<_> = rest.splitn(4, ' ').collect();
            if p.len() != 4 {
                return Err("MODULE needs 4 fields".into());
            }
            if !["Linux", "Mac", "windows"].contains(&p[0]) {
                return Err("unknown platform".into());
            }
            if p[1].is_empty() || p[2].is_empty() {
                return Err("empty field".into());
            }
            if !p[2].bytes().all(|c| c.is_ascii_hexdigit()) || p[2].len() < 33 {
                return Err("malformed debug id".into());
            }
            s.os = p[0].into();
            s.cpu = p[1].into();
            s.id = p[2].into();
            s.name = name(p[3])?;
        }
        _ if *stage == 0 => return Err("record before MODULE".into()),
        "INFO" => {
            go(stage, 2)?;
            if rest.trim().is_empty() {
                return Err("empty INFO".into());
            }
            s.infos.push(rest.into());
        }
        "FILE" => {
            go(stage, 3)?;
            let (n, f) = rest.split_once(' ').ok_or("FILE needs a number and a name")?;
            if dec(n)? as usize != s.files.len() {
                return Err("FILE numbers are not consecutive".into());
            }
            s.files.push(name(f)?);
        }
        "INLINE_ORIGIN" => {
            go(stage, 4)?;
            let (n, f) = rest.split_once(' ').ok_or("INLINE_ORIGIN needs a number and a name")?;
            if dec(n)? as usize != s.origins.len() {
                return Err("INLINE_ORIGIN numbers are not consecutive".into());
            }
            s.origins.push(name(f)?);
        }
        "FUNC" | "PUBLIC" => {
            go(stage, 5)?;
            let public = kw == "PUBLIC";
            let (multiple, rest) = match rest.strip_prefix("m ") {
                Some(r) => (true, r),
                None => (false, rest),
            };
            let n = if public { 3 } else { 4 };
            let p: Vec<_> = rest.splitn(n, ' ').collect();
            if p.len() != n {
                return Err(format!("{kw} needs {n} fields"));
            }
            s.recs.push(Rec {
                public,
                multiple,
                addr: hex(p[0])?,
                size: if public { 0 } else { hex(p[1])? },
                param: hex(p[n - 2])?,
                name: name(p[n - 1])?,
                ..Default::default()
            });
        }
        "INLINE" => {
            go(stage, 5)?;
            let r = s.recs.last_mut().ok_or("INLINE before FUNC")?;
            if r.public || !r.lines.is_empty() {
                return Err("INLINE at a wrong place".into());
            }
            let p: Vec<_> = rest.split(' ').collect();
            if p.len() < 6 || p.len() % 2 != 0 {
                return Err("wrong number of INLINE fields".into());
            }
            let mut i = Inl {
                depth: dec(p[0])? as u32,
                line: dec(p[1])?,
                file: dec(p[2])? as usize,
                origin: dec(p[3])? as usize,
                ranges: vec![],
            };
            for c in p[4..].chunks(2) {
                i.ranges.push((hex(c[0])?, hex(c[1])?));
            }
            r.inlines.push(i);
        }
        "STACK" => {
            go(stage, 6)?;
            let k = rest.split(' ').next().unwrap_or("");
            if k != "CFI" && k != "WIN" {
                return Err("unknown STACK record".into());
            }
            s.stack.push(line.into());
        }
        _ => {
            if *stage != 5 {
                return Err("unknown record".into());
            }
            let p: Vec<_> = line.split(' ').collect();
            if p.len() != 4 {
                return Err("unknown record".into());
            }
            let l = Ln {
                addr: hex(p[0])?,
                size: hex(p[1])?,
                line: dec(p[2])?,
                file: dec(p[3])? as usize,
            };
            let r = s.recs.last_mut().ok_or("line record before FUNC")?;
            if r.public {
                return Err("line record after PUBLIC".into());
            }
            r.lines.push(l);
        }
    }
    Ok(())
}

impl Sym {
    pub fn func_at(&self, addr: u64) -> Option<&Rec> {
        match self.recs.binary_search_by_key(&addr, |r| r.addr) {
            Ok(i) => Some(&self.recs[i]),
            Err(_) => None,
        }
    }
    pub fn sorted(&self) -> bool {
        self.recs.windows(2).all(|w| w[0].addr < w[1].addr)
    }
    /// (file, line) of the line record covering `addr`.
    pub fn line_at<'a>(&'a self, r: &Rec, addr: u64) -> Option<(&'a str, u64)> {
        r.lines
            .iter()
            .find(|l| addr >= l.addr && addr - l.addr < l.size)
            .map(|l| (self.files[l.file].as_str(), l.line))
    }
    /// The INLINE records covering `addr`: (depth, origin, call file, call line), sorted.
    pub fn inlines_at<'a>(&'a self, r: &Rec, addr: u64) -> Vec<(u32, &'a str, &'a str, u64)> {
        let mut v: Vec<_> = r
            .inlines
            .iter()
            .flat_map(|i| {
                i.ranges
                    .iter()
                    .filter(|(a, s)| addr >= *a && addr - a < *s)
                    .map(move |_| (i.depth, self.origins[i.origin].as_str(), self.files[i.file].as_str(), i.line))
            })
            .collect();
        v.sort();
        v
    }
}
