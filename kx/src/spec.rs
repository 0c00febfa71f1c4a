use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub file: String,
    pub path: Vec<String>,
    pub tr: Option<String>,
    pub contract: String,
    pub attr: String,
    pub ret: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_opts: BTreeMap<usize, Vec<String>>,
    /// (anchor, text)
    pub hints: Vec<(String, String)>,
    /// emit as method of this type instead
    pub as_type: Option<String>,
    pub rename: Option<String>,
    pub external: bool,
    pub proved_in: String,
    pub subst: Vec<(String, String)>,
    pub sig: Option<String>,
    pub no_isolation: bool,
    pub nocanary: bool,
    /// signature of a function whose body is one invocation of the macro of that name
    pub mac: Option<String>,
}

#[derive(Default, Clone, Debug)]
pub struct ItemSpec {
    pub file: String,
    pub name: String,
    pub attr: String,
    pub exec: Option<String>,
    pub subst: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Raw(String),
    Item(ItemSpec),
    Fn(FnSpec),
}

#[derive(Default, Clone, Debug)]
pub struct Unit {
    pub entries: Vec<Entry>,
    pub provided: Vec<String>,
    pub drop_fields: Vec<String>,
    /// method name -> free function
    pub mapmethods: BTreeMap<String, String>,
    /// path -> path
    pub mappaths: BTreeMap<String, String>,
    pub opts: Vec<String>,
}

pub fn parse_unit(path: &str) -> Result<Unit, String> {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut u = Unit::default();
    u.drop_fields.push("mediator".into());
    let mut lines: Vec<String> = Vec::new();
    fn read(p: &std::path::Path, lines: &mut Vec<String>, depth: usize, args: &BTreeMap<String, String>) -> Result<(), String> {
        if depth > 5 {
            return Err("include depth".into());
        }
        let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?;
        for l in text.lines() {
            let mut l = l.to_string();
            for (k, v) in args {
                l = l.replace(&format!("${{{}}}", k), v);
            }
            if let Some(r) = l.strip_prefix("@@include ") {
                let mut it = r.split_whitespace();
                let f = it.next().unwrap();
                let mut a = BTreeMap::new();
                for kv in it {
                    if let Some((k, v)) = kv.split_once('=') {
                        a.insert(k.to_string(), v.to_string());
                    }
                }
                let n = lines.len();
                read(&p.parent().unwrap().join(f), lines, depth + 1, &a)?;
                if let Some(unit) = a.get("proved") {
                    // the functions of the file are proved in another unit: only their contracts are kept here
                    let part = lines.split_off(n);
                    let mut keep = true;
                    for l in part {
                        if l.starts_with("@@fn ") {
                            keep = true;
                            lines.push(l);
                            lines.push(format!("@@external {}", unit));
                            lines.push("@@contract".into());
                            continue;
                        }
                        if l.starts_with("@@at ") || l.starts_with("@@loop ") || l.starts_with("@@isolate") || l.starts_with("@@attr") {
                            keep = false;
                            continue;
                        }
                        if l.starts_with("@@") {
                            keep = true;
                        }
                        if keep {
                            lines.push(l);
                        }
                    }
                }
            } else {
                lines.push(l);
            }
        }
        Ok(())
    }
    let _ = dir;
    read(std::path::Path::new(path), &mut lines, 0, &BTreeMap::new())?;

    let mut file = String::new();
    let mut cur: Option<FnSpec> = None;
    let mut raw = String::new();
    enum Mode {
        Raw,
        Contract,
        Loop(usize),
        Hint(usize),
        Attr,
        None,
    }
    let mut mode = Mode::Raw;
    let flush_raw = |raw: &mut String, u: &mut Unit| {
        if !raw.trim().is_empty() {
            u.entries.push(Entry::Raw(raw.clone()));
        }
        raw.clear();
    };
    for l in &lines {
        if let Some(d) = l.strip_prefix("@@") {
            let mut parts = d.splitn(2, ' ');
            let key = parts.next().unwrap().trim();
            let rest = parts.next().unwrap_or("").trim();
            match key {
                "#" => {}
                "file" => file = rest.to_string(),
                "raw" | "prelude" | "endfn" => {
                    if let Some(f) = cur.take() {
                        u.entries.push(Entry::Fn(f));
                    }
                    mode = Mode::Raw;
                }
                "provided" => u.provided.extend(rest.split_whitespace().map(|s| s.to_string())),
                "dropfield" => u.drop_fields.extend(rest.split_whitespace().map(|s| s.to_string())),
                "mapmethod" => {
                    let v: Vec<&str> = rest.split_whitespace().collect();
                    u.mapmethods.insert(v[0].into(), v[1].into());
                }
                "mappath" => {
                    let v: Vec<&str> = rest.split_whitespace().collect();
                    u.mappaths.insert(v[0].into(), v[1].into());
                }
                "opt" => u.opts.push(rest.to_string()),
                "item" => {
                    if let Some(f) = cur.take() {
                        u.entries.push(Entry::Fn(f));
                    }
                    flush_raw(&mut raw, &mut u);
                    let mut sp = rest.splitn(2, ' ');
                    let name = sp.next().unwrap().to_string();
                    let attr = sp.next().unwrap_or("").to_string();
                    u.entries.push(Entry::Item(ItemSpec { file: file.clone(), name, attr, exec: None, subst: vec![] }));
                    mode = Mode::Raw;
                }
                "itemexec" => {
                    if let Some(Entry::Item(i)) = u.entries.last_mut() {
                        i.exec = Some(rest.to_string());
                    }
                }
                "itemsubst" => {
                    let (a, b) = rest.split_once(" => ").ok_or("itemsubst")?;
                    if let Some(Entry::Item(i)) = u.entries.last_mut() {
                        i.subst.push((a.to_string(), b.to_string()));
                    }
                }
                "fn" => {
                    if let Some(f) = cur.take() {
                        u.entries.push(Entry::Fn(f));
                    }
                    flush_raw(&mut raw, &mut u);
                    let (p, tr) = match rest.split_once(" for ") {
                        Some((a, b)) => (a.trim(), Some(b.trim().to_string())),
                        None => (rest, None),
                    };
                    cur = Some(FnSpec {
                        file: file.clone(),
                        path: p.split("::").map(|s| s.to_string()).collect(),
                        tr,
                        ret: "r".into(),
                        no_isolation: true,
                        ..Default::default()
                    });
                    mode = Mode::Contract;
                }
                "macro" => {
                    if let Some(f) = cur.take() {
                        u.entries.push(Entry::Fn(f));
                    }
                    flush_raw(&mut raw, &mut u);
                    let name = rest.split('(').next().unwrap().trim().to_string();
                    cur = Some(FnSpec {
                        file: file.clone(),
                        path: vec![name],
                        mac: Some(rest.to_string()),
                        ret: "r".into(),
                        no_isolation: true,
                        ..Default::default()
                    });
                    mode = Mode::Contract;
                }
                "contract" => mode = Mode::Contract,
                "attr" => {
                    if !rest.is_empty() {
                        if let Some(f) = cur.as_mut() {
                            f.attr.push_str(rest);
                            f.attr.push('\n');
                        }
                    } else {
                        mode = Mode::Attr;
                    }
                }
                "ret" => {
                    if let Some(f) = cur.as_mut() {
                        f.ret = rest.to_string();
                    }
                }
                "as" => {
                    if let Some(f) = cur.as_mut() {
                        f.as_type = Some(rest.to_string());
                    }
                }
                "rename" => {
                    if let Some(f) = cur.as_mut() {
                        f.rename = Some(rest.to_string());
                    }
                }
                "sig" => {
                    if let Some(f) = cur.as_mut() {
                        f.sig = Some(rest.to_string());
                    }
                }
                "external" => {
                    if let Some(f) = cur.as_mut() {
                        f.external = true;
                        f.proved_in = rest.to_string();
                    }
                }
                "nocanary" => {
                    if let Some(f) = cur.as_mut() {
                        f.nocanary = true;
                    }
                }
                "isolate" => {
                    if let Some(f) = cur.as_mut() {
                        f.no_isolation = false;
                    }
                }
                "subst" => {
                    let (a, b) = rest.split_once(" => ").ok_or("subst")?;
                    if let Some(f) = cur.as_mut() {
                        f.subst.push((a.to_string(), b.to_string()));
                    }
                }
                "loop" => {
                    let v: Vec<&str> = rest.split_whitespace().collect();
                    let n: usize = v[0].parse().map_err(|_| format!("loop {}", rest))?;
                    if let Some(f) = cur.as_mut() {
                        f.loops.entry(n).or_default();
                        f.loop_opts.insert(n, v[1..].iter().map(|s| s.to_string()).collect());
                    }
                    mode = Mode::Loop(n);
                }
                "at" => {
                    if let Some(f) = cur.as_mut() {
                        f.hints.push((rest.to_string(), String::new()));
                        mode = Mode::Hint(f.hints.len() - 1);
                    }
                }
                _ => return Err(format!("unknown directive {}", key)),
            }
            continue;
        }
        match &mode {
            Mode::Raw => {
                raw.push_str(l);
                raw.push('\n');
            }
            Mode::Contract => {
                let f = cur.as_mut().unwrap();
                f.contract.push_str(l);
                f.contract.push('\n');
            }
            Mode::Attr => {
                let f = cur.as_mut().unwrap();
                f.attr.push_str(l);
                f.attr.push('\n');
            }
            Mode::Loop(n) => {
                let f = cur.as_mut().unwrap();
                let e = f.loops.get_mut(n).unwrap();
                e.push_str(l);
                e.push('\n');
            }
            Mode::Hint(n) => {
                let f = cur.as_mut().unwrap();
                f.hints[*n].1.push_str(l);
                f.hints[*n].1.push('\n');
            }
            Mode::None => {}
        }
    }
    if let Some(f) = cur.take() {
        u.entries.push(Entry::Fn(f));
    }
    flush_raw(&mut raw, &mut u);
    Ok(u)
}
