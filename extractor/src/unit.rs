// The unit-file format.  Directives start with '@' in column one; the lines that follow belong to it.
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Unit {
    pub name: String,
    pub includes: Vec<String>,
    pub pathmap: BTreeMap<String, String>,
    pub typemap: BTreeMap<String, String>,
    pub erase_macros: Vec<String>,
    pub result_fns: Vec<String>,
    pub externs: Vec<String>,
    pub opcalls: Vec<String>,
    /// `x.await` becomes vx_await(x) instead of x
    pub awaits: bool,
    /// select! arms awaiting a call of this name also record that they were armed, by a call of that name
    pub armed: std::collections::BTreeMap<String, String>,
    pub eff: Vec<String>,
    pub index: BTreeMap<String, String>,
    pub mutargs: Vec<(String, usize)>,
    pub constfns: Vec<String>,
    pub methodmap: BTreeMap<String, String>,
    /// source file, method, new function, its signature: the closure given to the method becomes that function
    pub lifts: Vec<(String, String, String, String)>,
    pub entries: Vec<Entry>,
}

pub enum Entry {
    Text(String),
    Item(ItemSpec),
    Fn(FnSpec),
}

#[derive(Default, Clone)]
pub struct ItemSpec {
    pub name: String,
    pub source: String,
    pub drop_fields: Vec<String>,
    pub field_ty: BTreeMap<String, String>,
    pub attrs: Vec<String>,
    pub constfn: Option<String>,
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub name: String,
    pub source: String,
    pub trusted: bool,
    pub free: bool,
    pub locals: Vec<String>,
    pub shape: Option<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub collects: BTreeMap<usize, String>,
    pub opcalls: Vec<String>,
    pub lettys: Vec<(String, String)>,
    pub selfmut: bool,
    pub eff: bool,
    pub rename_params: BTreeMap<String, String>,
    pub param_ty: BTreeMap<String, String>,
    pub ret_ty: Option<String>,
    pub generics: Option<String>,
    pub recv: Option<String>,
    pub add_params: Vec<String>,
    pub subst: Vec<(String, String)>,
    pub panics_ok: bool,
    pub formats: bool,
    pub drop_stmts: Vec<String>,
    /// only the statements from the first with one of these prefixes ..
    pub keep_from: Vec<String>,
    /// .. to the first one after it with this prefix
    pub keep_to: Option<String>,
    pub rename_to: Option<String>,
    pub probe: bool,
    pub props: Vec<String>,
}

pub fn parse(path: &str) -> Unit {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
    let mut u = Unit::default();
    let mut source = String::new();
    let mut dirs: Vec<(String, String)> = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix('@') {
            dirs.push((r.trim_end().to_string(), String::new()));
        } else if let Some(d) = dirs.last_mut() {
            d.1.push_str(l);
            d.1.push('\n');
        }
    }
    let mut attrs_default: Vec<String> = vec![];
    for (d, body) in dirs {
        let mut w = d.splitn(2, char::is_whitespace);
        let k = w.next().unwrap();
        let rest = w.next().unwrap_or("").trim().to_string();
        let words: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
        fn last_fn(u: &mut Unit) -> &mut FnSpec {
            match u.entries.last_mut() {
                Some(Entry::Fn(f)) => f,
                _ => panic!("directive outside @fn"),
            }
        }
        match k {
            "unit" => u.name = rest,
            "include" => u.includes.push(rest),
            "source" => source = rest,
            "pathmap" => {
                u.pathmap.insert(words[0].clone(), words[1].clone());
            }
            "typemap" => {
                u.typemap.insert(words[0].clone(), words[1..].join(" "));
            }
            "erase" => u.erase_macros.extend(words),
            "resultfns" => u.result_fns.extend(words),
            "extern" => u.externs.extend(words),
            "lift" => u.lifts.push((source.clone(), words[0].clone(), words[1].clone(), words[2..].join(" "))),
            "effcalls" => u.eff.extend(words),
            "awaits" => u.awaits = true,
            "armed" => {
                u.armed.insert(words[0].clone(), words[1].clone());
            }
            "index" => {
                u.index.insert(words[0].clone(), words[1].clone());
            }
            "mutarg" => u.mutargs.push((words[0].clone(), words[1].parse().unwrap())),
            "constfn" => {
                u.constfns.push(words[0].clone());
                let mut it = ItemSpec { source: source.clone(), ..Default::default() };
                it.name = format!("const {}", words[0]);
                it.constfn = Some(body);
                u.entries.push(Entry::Item(it));
            }
            "methodmap" => {
                u.methodmap.insert(words[0].clone(), words[1].clone());
            }
            "statics" => u.constfns.extend(words),
            "defattr" => attrs_default.push(rest),
            "text" => u.entries.push(Entry::Text(body)),
            "item" => {
                let mut it = ItemSpec { source: source.clone(), ..Default::default() };
                it.name = format!("{} {}", words[0], words[1]);
                u.entries.push(Entry::Item(it));
            }
            "dropfields" => {
                if let Some(Entry::Item(it)) = u.entries.last_mut() {
                    it.drop_fields.extend(words);
                }
            }
            "field" => {
                if let Some(Entry::Item(it)) = u.entries.last_mut() {
                    it.field_ty.insert(words[0].clone(), words[1..].join(" "));
                }
            }
            "itemattr" => {
                if let Some(Entry::Item(it)) = u.entries.last_mut() {
                    it.attrs.push(rest);
                }
            }
            "fn" => {
                let mut f = FnSpec { source: source.clone(), ..Default::default() };
                f.name = words[0].clone();
                f.attrs = attrs_default.clone();
                for x in &words[1..] {
                    match x.as_str() {
                        "trusted" => f.trusted = true,
                        "free" => f.free = true,
                        "selfmut" => f.selfmut = true,
                        "eff" => f.eff = true,
                        "panics-ok" => f.panics_ok = true,
                        "formats" => f.formats = true,
                        o => panic!("unknown fn flag {}", o),
                    }
                }
                u.entries.push(Entry::Fn(f));
            }
            "locals" => last_fn(&mut u).locals = words,
            "shape" => last_fn(&mut u).shape = Some(rest),
            "ret" => last_fn(&mut u).ret = Some(rest),
            "spec" => last_fn(&mut u).spec = body,
            "loop" => {
                last_fn(&mut u).loops.insert(words[0].parse().unwrap(), body);
            }
            "hint" => last_fn(&mut u).hints.push((rest, body)),
            "attr" => last_fn(&mut u).attrs.push(rest),
            "collect" => {
                last_fn(&mut u).collects.insert(words[0].parse().unwrap(), words[1..].join(" "));
            }
            "prop" => last_fn(&mut u).props = words,
            "letty" => last_fn(&mut u).lettys.push((words[0].clone(), words[1..].join(" "))),
            "opcalls" => last_fn(&mut u).opcalls.extend(words),
            "paramty" => {
                last_fn(&mut u).param_ty.insert(words[0].clone(), words[1..].join(" "));
            }
            "retty" => last_fn(&mut u).ret_ty = Some(rest),
            "generics" => last_fn(&mut u).generics = Some(rest),
            "recv" => last_fn(&mut u).recv = Some(rest),
            "addparam" => last_fn(&mut u).add_params.push(rest),
            "renameto" => last_fn(&mut u).rename_to = Some(rest),
            "subst" => {
                let mut p = rest.splitn(2, "=>");
                let a = p.next().unwrap().trim().to_string();
                let b = p.next().unwrap().trim().to_string();
                last_fn(&mut u).subst.push((a, b));
            }
            "keepfrom" => last_fn(&mut u).keep_from.push(rest),
            "keepto" => last_fn(&mut u).keep_to = Some(rest),
            "dropstmt" => last_fn(&mut u).drop_stmts.push(rest),
            "note" | "#" => {}
            o => panic!("{}: unknown directive @{}", path, o),
        }
    }
    u
}
