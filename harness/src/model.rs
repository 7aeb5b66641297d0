//! The reference model of a document: the tree of tables, arrays of tables and values it defines, and the errors it
//! contains.
use crate::ast::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Node {
    Tab(Table),
    Aot(Vec<Table>),
    /// The value of the key/value pair that is the item of this number.
    Val(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Table {
    pub defined: bool,
    pub kids: Vec<(String, Node)>,
}

impl Table {
    fn get(&self, k: &str) -> Option<&Node> {
        self.kids.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    fn get_mut(&mut self, k: &str) -> Option<&mut Node> {
        self.kids.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1)
    }
    fn holds_values(&self) -> bool {
        self.kids.iter().any(|x| matches!(x.1, Node::Val(_)))
    }
}

#[derive(Clone, Debug)]
pub enum EKind {
    /// The value, and the path of the pair within an inline table that is the duplicate.
    Dup { val: MVal, path: Vec<usize> },
    /// The key/value pairs of the table.
    Table { map: Vec<(String, MVal)> },
    Mixed { path: Vec<usize> },
    Date { path: Vec<usize>, text: String },
}

#[derive(Clone, Debug)]
pub struct MErr {
    pub kind: EKind,
    /// The key; the second is another acceptable name of the same table.
    pub key: String,
    pub alt: Option<String>,
    pub item: usize,
}

impl MErr {
    pub fn name(&self) -> &'static str {
        match self.kind {
            EKind::Dup { .. } => "DuplicateKey",
            EKind::Table { .. } => "InvalidTable",
            EKind::Mixed { .. } => "MixedArray",
            EKind::Date { .. } => "InvalidDateTime",
        }
    }
}

#[derive(Clone, Debug)]
enum Cursor {
    At(Vec<(String, Option<usize>)>),
    /// In an invalid table: the number of its error.
    Invalid(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kids {
    Count(usize),
    Keys(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub key: String,
    pub val: Option<MVal>,
    pub kids: Kids,
    /// Where the value is: the item and the path into its value.
    pub at: Option<(usize, Vec<usize>)>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub root: Table,
    pub errors: Vec<MErr>,
    cursor: Cursor,
    /// The key of the current table.
    table_key: String,
    pub invalid_items: Vec<usize>,
    /// Headers that are only invalid because their parent holds values of its own.
    pub parent_rule: usize,
}

pub fn join(base: &str, k: &str) -> String {
    if base.is_empty() {
        k.to_string()
    } else {
        format!("{}.{}", base, k)
    }
}

impl Model {
    pub fn new() -> Model {
        Model {
            root: Table { defined: true, kids: vec![] },
            errors: vec![],
            cursor: Cursor::At(vec![]),
            table_key: String::new(),
            invalid_items: vec![],
            parent_rule: 0,
        }
    }

    pub fn build(doc: &Doc) -> Model {
        let mut m = Model::new();
        for (i, it) in doc.items.iter().enumerate() {
            if let Kind::Raw(_) = it.kind {
                break;
            }
            m.step(i, it);
        }
        m
    }

    fn table_at<'a>(root: &'a mut Table, path: &[(String, Option<usize>)]) -> &'a mut Table {
        let mut t = root;
        for &(ref k, i) in path {
            t = match t.get_mut(k) {
                Some(&mut Node::Tab(ref mut t)) => t,
                Some(&mut Node::Aot(ref mut v)) => &mut v[i.unwrap()],
                _ => panic!("harness: cursor into nothing"),
            };
        }
        t
    }

    pub fn step(&mut self, i: usize, it: &Item) {
        match it.kind {
            Kind::Blank | Kind::Raw(_) => (),
            Kind::Header { array, ref keys } => self.header(i, array, keys),
            Kind::KeyVal { ref key, ref val, .. } => {
                let full = join(&self.table_key, key);
                self.value_errors(i, &full, val, &mut vec![]);
                match self.cursor {
                    Cursor::Invalid(e) => {
                        self.invalid_items.push(i);
                        if let EKind::Table { ref mut map } = self.errors[e].kind {
                            map.retain(|x| x.0 != *key);
                            map.push((key.clone(), val.sem()));
                        }
                    }
                    Cursor::At(ref path) => {
                        let t = Model::table_at(&mut self.root, path);
                        if t.get(key).is_some() {
                            self.invalid_items.push(i);
                            self.errors.push(MErr {
                                kind: EKind::Dup { val: val.sem(), path: vec![] },
                                key: full,
                                alt: None,
                                item: i,
                            });
                        } else {
                            t.kids.push((key.clone(), Node::Val(i)));
                            self.inner_dups(i, &full, val, &mut vec![]);
                        }
                    }
                }
            }
        }
    }

    /// Mixed arrays and impossible dates within a value.
    fn value_errors(&mut self, item: usize, full: &str, v: &Val, path: &mut Vec<usize>) {
        match *v {
            Val::Scalar(MVal::Dt(ref d)) if !d.exists() => {
                let kind = EKind::Date { path: path.clone(), text: d.text() };
                self.errors.push(MErr { kind, key: full.to_string(), alt: None, item })
            }
            Val::Scalar(_) => (),
            Val::Arr { ref elems, .. } => {
                let kinds: Vec<u8> = elems.iter().map(|e| e.val.sem().kind()).collect();
                if kinds.iter().any(|k| *k != kinds[0]) {
                    let kind = EKind::Mixed { path: path.clone() };
                    self.errors.push(MErr { kind, key: full.to_string(), alt: None, item });
                }
                for (i, e) in elems.iter().enumerate() {
                    path.push(i);
                    self.value_errors(item, &format!("{}[{}]", full, i), &e.val, path);
                    path.pop();
                }
            }
            Val::Inl { ref pairs, .. } => {
                for (i, p) in pairs.iter().enumerate() {
                    path.push(i);
                    self.value_errors(item, &join(full, &p.key), &p.val, path);
                    path.pop();
                }
            }
        }
    }

    /// Keys that an inline table defines twice. Nothing within such a duplicate is looked at.
    fn inner_dups(&mut self, item: usize, full: &str, v: &Val, path: &mut Vec<usize>) {
        match *v {
            Val::Scalar(_) => (),
            Val::Arr { ref elems, .. } => {
                for (i, e) in elems.iter().enumerate() {
                    path.push(i);
                    self.inner_dups(item, &format!("{}[{}]", full, i), &e.val, path);
                    path.pop();
                }
            }
            Val::Inl { ref pairs, .. } => {
                for (i, p) in pairs.iter().enumerate() {
                    path.push(i);
                    let sub = join(full, &p.key);
                    if pairs[..i].iter().any(|q| q.key == p.key) {
                        let kind = EKind::Dup { val: p.val.sem(), path: path.clone() };
                        self.errors.push(MErr { kind, key: sub, alt: None, item });
                    } else {
                        self.inner_dups(item, &sub, &p.val, path);
                    }
                    path.pop();
                }
            }
        }
    }

    fn header(&mut self, item: usize, array: bool, keys: &[HKey]) {
        // walk the keys on the way
        let mut full = String::new();
        let mut path: Vec<(String, Option<usize>)> = vec![];
        let mut through_value = false;
        let mut in_element = false;
        let n = keys.len();
        {
            // None once the way leaves what is defined
            let mut t: Option<&Table> = Some(&self.root);
            for k in &keys[..n - 1] {
                full = join(&full, &k.key);
                in_element = false;
                let mut idx = None;
                t = match t.and_then(|t| t.get(&k.key)) {
                    Some(&Node::Tab(ref x)) => Some(x),
                    Some(&Node::Aot(ref v)) => {
                        idx = Some(v.len() - 1);
                        full.push_str(&format!("[{}]", v.len() - 1));
                        in_element = true;
                        v.last()
                    }
                    Some(&Node::Val(_)) => {
                        through_value = true;
                        None
                    }
                    None => None,
                };
                path.push((k.key.clone(), idx));
            }
            full = join(&full, &keys[n - 1].key);
            let last = t.and_then(|t| t.get(&keys[n - 1].key));
            let mut alt = None;
            let mut error;
            if array {
                error = through_value || !matches!(last, None | Some(&Node::Aot(_)));
                if error {
                    alt = Some(full.clone());
                    full.push_str("[0]");
                }
            } else {
                error = through_value
                    || match last {
                        None => false,
                        Some(&Node::Tab(ref t)) => t.defined,
                        Some(_) => true,
                    };
                if !error && n > 1 && !in_element && t.map_or(false, |t| t.holds_values()) {
                    error = true;
                    self.parent_rule += 1;
                }
            }
            if error {
                self.table_key = full.clone();
                self.cursor = Cursor::Invalid(self.errors.len());
                self.invalid_items.push(item);
                self.errors.push(MErr { kind: EKind::Table { map: vec![] }, key: full, alt, item });
                return;
            }
        }
        // define it
        let mut t = &mut self.root;
        for (j, k) in keys[..n - 1].iter().enumerate() {
            if t.get(&k.key).is_none() {
                t.kids.push((k.key.clone(), Node::Tab(Table::default())));
            }
            t = match t.get_mut(&k.key) {
                Some(&mut Node::Tab(ref mut x)) => x,
                Some(&mut Node::Aot(ref mut v)) => &mut v[path[j].1.unwrap()],
                _ => unreachable!(),
            };
        }
        let last = &keys[n - 1].key;
        if array {
            if t.get(last).is_none() {
                t.kids.push((last.clone(), Node::Aot(vec![])));
            }
            let i = match t.get_mut(last) {
                Some(&mut Node::Aot(ref mut v)) => {
                    v.push(Table { defined: true, kids: vec![] });
                    v.len() - 1
                }
                _ => unreachable!(),
            };
            path.push((last.clone(), Some(i)));
            full.push_str(&format!("[{}]", i));
        } else {
            if t.get(last).is_none() {
                t.kids.push((last.clone(), Node::Tab(Table::default())));
            }
            if let Some(&mut Node::Tab(ref mut x)) = t.get_mut(last) {
                x.defined = true;
            }
            path.push((last.clone(), None));
        }
        self.table_key = full;
        self.cursor = Cursor::At(path);
    }

    /// Every full key with its value and children; the first entry is the root.
    pub fn entries(&self, doc: &Doc) -> Vec<Entry> {
        let mut out = vec![];
        Model::table_entries(doc, "", &self.root, &mut out);
        out
    }

    fn table_entries(doc: &Doc, key: &str, t: &Table, out: &mut Vec<Entry>) {
        out.push(Entry {
            key: key.to_string(),
            val: None,
            kids: Kids::Keys(t.kids.iter().map(|x| x.0.clone()).collect()),
            at: None,
        });
        for &(ref k, ref n) in &t.kids {
            let full = join(key, k);
            match *n {
                Node::Tab(ref t) => Model::table_entries(doc, &full, t, out),
                Node::Aot(ref v) => {
                    out.push(Entry { key: full.clone(), val: None, kids: Kids::Count(v.len()), at: None });
                    for (i, t) in v.iter().enumerate() {
                        Model::table_entries(doc, &format!("{}[{}]", full, i), t, out);
                    }
                }
                Node::Val(i) => {
                    if let Kind::KeyVal { ref val, .. } = doc.items[i].kind {
                        Model::val_entries(i, &full, val, &mut vec![], out);
                    }
                }
            }
        }
    }

    fn val_entries(item: usize, key: &str, v: &Val, path: &mut Vec<usize>, out: &mut Vec<Entry>) {
        let pos = out.len();
        out.push(Entry {
            key: key.to_string(),
            val: Some(v.sem()),
            kids: Kids::Count(0),
            at: Some((item, path.clone())),
        });
        match *v {
            Val::Scalar(_) => (),
            Val::Arr { ref elems, .. } => {
                out[pos].kids = Kids::Count(elems.len());
                for (i, e) in elems.iter().enumerate() {
                    path.push(i);
                    Model::val_entries(item, &format!("{}[{}]", key, i), &e.val, path, out);
                    path.pop();
                }
            }
            Val::Inl { ref pairs, .. } => {
                let mut keys: Vec<String> = vec![];
                for (i, p) in pairs.iter().enumerate() {
                    if keys.contains(&p.key) {
                        continue;
                    }
                    keys.push(p.key.clone());
                    path.push(i);
                    Model::val_entries(item, &join(key, &p.key), &p.val, path, out);
                    path.pop();
                }
                out[pos].kids = Kids::Keys(keys);
            }
        }
    }
}

/// The lines between which an error has to be reported.
pub fn error_lines(e: &MErr, l: &Layout) -> (usize, usize) {
    let it = l.items[e.item].as_ref().unwrap();
    match e.kind {
        EKind::Dup { ref path, .. } if path.is_empty() => (it.line, it.line),
        EKind::Dup { .. } => (it.line, it.end_line),
        EKind::Table { .. } => (it.line, it.line),
        EKind::Mixed { ref path } | EKind::Date { ref path, .. } => {
            let s = &l.vals[&(e.item, path.clone())];
            (s.line, s.end_line)
        }
    }
}

pub fn index(entries: &[Entry]) -> HashMap<&str, usize> {
    entries.iter().enumerate().map(|(i, e)| (&e.key[..], i)).collect()
}
