//! Abstract data dictionaries: the reference for everything the loaded dictionary answers and for what a
//! conforming message is.  Written from the FIX dictionary format, not from the code under test.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const TYPES: &[&str] = &["CHAR","BOOLEAN","DATA","FLOAT","AMT","PERCENTAGE","PRICE","PRICEOFFSET","QTY","INT","LENGTH","NUMINGROUP",
    "SEQNUM","TAGNUM","STRING","COUNTRY","CURRENCY","EXCHANGE","LOCALMKTDATE","MONTHYEAR","MULTIPLEVALUESTRING","UTCDATE","UTCTIMEONLY","UTCTIMESTAMP"];

#[derive(Clone, Debug)]
pub struct FieldDecl { pub num: u32, pub name: String, pub ty: String, pub values: Vec<String> }
#[derive(Clone, Debug)]
pub enum Item { Field { num: u32, req: bool }, Comp { c: usize, req: bool }, Group { num: u32, req: bool, items: Vec<Item> } }
#[derive(Clone, Debug)]
pub struct CompDecl { pub name: String, pub items: Vec<Item> }
#[derive(Clone, Debug)]
pub struct MsgDecl { pub name: String, pub ty: String, pub cat: String, pub items: Vec<Item> }
#[derive(Clone, Debug, Default)]
pub struct ADict { pub fields: Vec<FieldDecl>, pub comps: Vec<CompDecl>, pub msgs: Vec<MsgDecl>, pub header: Vec<Item>, pub trailer: Vec<Item>, pub version: (String, String, String) }

/// Resolved view: what a message, the header, the trailer or a group contains, components expanded, in document order.
#[derive(Clone, Debug, Default)]
pub struct Scope { pub members: Vec<Member>, index: HashMap<u32, usize> }
#[derive(Clone, Debug)]
pub struct Member { pub tag: u32, pub required: bool, pub group: Option<Scope> }
impl Scope {
    pub fn get(&self, tag: u32) -> Option<&Member> { self.index.get(&tag).map(|i| &self.members[*i]) }
    pub fn pos(&self, tag: u32) -> Option<usize> { self.index.get(&tag).copied() }
    pub fn delim(&self) -> u32 { self.members.first().map_or(0, |m| m.tag) }
    pub fn tags(&self) -> BTreeSet<u32> { self.members.iter().map(|m| m.tag).collect() }
    pub fn order(&self) -> Vec<u32> { self.members.iter().map(|m| m.tag).collect() }
    fn push(&mut self, m: Member) { self.index.insert(m.tag, self.members.len()); self.members.push(m) }
    pub fn has_groups(&self) -> bool { self.members.iter().any(|m| m.group.is_some()) }
}
#[derive(Clone, Debug, Default)]
pub struct RDict { pub header: Scope, pub trailer: Scope, pub msgs: BTreeMap<String, Scope> }

impl ADict {
    pub fn field(&self, num: u32) -> &FieldDecl { self.fields.iter().find(|f| f.num == num).unwrap() }
    fn fill(&self, items: &[Item], ctx_req: bool, out: &mut Scope) {
        for it in items {
            match it {
                Item::Field { num, req } => out.push(Member { tag: *num, required: *req && ctx_req, group: None }),
                Item::Comp { c, req } => self.fill(&self.comps[*c].items, *req, out),
                Item::Group { num, req, items } => {
                    let mut g = Scope::default();
                    self.fill(items, *req, &mut g);
                    out.push(Member { tag: *num, required: *req && ctx_req, group: Some(g) });
                }
            }
        }
    }
    pub fn scope(&self, items: &[Item]) -> Scope { let mut s = Scope::default(); self.fill(items, true, &mut s); s }
    pub fn resolve(&self) -> RDict {
        RDict { header: self.scope(&self.header), trailer: self.scope(&self.trailer),
            msgs: self.msgs.iter().map(|m| (m.ty.clone(), self.scope(&m.items))).collect() }
    }

    // ---- independent reader (for the shipped file) ----
    pub fn read(xml: &str) -> ADict {
        let doc = roxmltree::Document::parse(xml).expect("shipped dictionary is XML");
        let root = doc.root_element();
        let sec = |n: &str| root.children().filter(|c| c.has_tag_name(n)).next().unwrap_or_else(|| panic!("no section {n}"));
        let mut d = ADict { version: (root.attribute("type").unwrap().into(), root.attribute("major").unwrap().into(), root.attribute("minor").unwrap().into()), ..Default::default() };
        let mut num: HashMap<String, u32> = HashMap::new();
        for f in sec("fields").descendants().filter(|c| c.has_tag_name("field")) {
            let n: u32 = f.attribute("number").unwrap().parse().unwrap();
            num.insert(f.attribute("name").unwrap().into(), n);
            d.fields.push(FieldDecl { num: n, name: f.attribute("name").unwrap().into(), ty: f.attribute("type").unwrap().into(),
                values: f.descendants().filter(|v| v.has_tag_name("value")).map(|v| v.attribute("enum").unwrap().to_string()).collect() });
        }
        let comp_names: Vec<String> = sec("components").children().filter(|c| c.is_element()).map(|c| c.attribute("name").unwrap().to_string()).collect();
        let comp_idx: HashMap<String, usize> = comp_names.iter().cloned().enumerate().map(|(i, n)| (n, i)).collect();
        fn items(n: roxmltree::Node, num: &HashMap<String, u32>, ci: &HashMap<String, usize>) -> Vec<Item> {
            let mut v = vec![];
            for c in n.children() {
                if !c.is_element() { continue }
                let req = c.attribute("required").map(|s| s.to_lowercase() == "y").unwrap_or(false);
                let name = c.attribute("name").unwrap();
                match c.tag_name().name() {
                    "field" => v.push(Item::Field { num: num[name], req }),
                    "component" => v.push(Item::Comp { c: ci[name], req }),
                    "group" => v.push(Item::Group { num: num[name], req, items: items(c, num, ci) }),
                    o => panic!("unexpected element {o}"),
                }
            }
            v
        }
        d.comps = sec("components").children().filter(|c| c.is_element()).map(|c| CompDecl { name: c.attribute("name").unwrap().into(), items: items(c, &num, &comp_idx) }).collect();
        d.msgs = sec("messages").children().filter(|c| c.is_element()).map(|c| MsgDecl { name: c.attribute("name").unwrap().into(), ty: c.attribute("msgtype").unwrap().into(),
            cat: c.attribute("msgcat").unwrap().into(), items: items(c, &num, &comp_idx) }).collect();
        d.header = items(sec("header"), &num, &comp_idx);
        d.trailer = items(sec("trailer"), &num, &comp_idx);
        d
    }

    // ---- XML ----
    pub fn to_xml(&self, rng: &mut Rng) -> String {
        let mut secs: Vec<String> = vec![
            self.xml_section("header", &self.header, rng),
            self.xml_section("trailer", &self.trailer, rng),
            { let mut s = String::from("<messages>"); for m in &self.msgs { s += &ws(rng); s += &format!("<message name=\"{}\" msgtype=\"{}\" msgcat=\"{}\">", esc(&m.name), esc(&m.ty), esc(&m.cat)); self.xml_items(&m.items, rng, &mut s); s += "</message>"; } s + "</messages>" },
            { let mut s = String::from("<components>"); for c in &self.comps { s += &ws(rng); s += &format!("<component name=\"{}\">", esc(&c.name)); self.xml_items(&c.items, rng, &mut s); s += "</component>"; } s + "</components>" },
            { let mut s = String::from("<fields>"); for f in &self.fields { s += &ws(rng);
                let mut a = vec![format!("number=\"{}\"", f.num), format!("name=\"{}\"", esc(&f.name)), format!("type=\"{}\"", f.ty)]; rng.shuffle(&mut a);
                s += &format!("<field {}", a.join(" "));
                if f.values.is_empty() { s += if rng.chance(1, 2) { "/>" } else { "></field>" } } else { s += ">"; for v in &f.values { s += &ws(rng); s += &format!("<value enum=\"{}\" description=\"D_{}\"/>", esc(v), f.num) } s += "</field>" }
              } s + "</fields>" },
        ];
        if rng.chance(1, 2) { rng.shuffle(&mut secs) }
        format!("<fix type=\"{}\" major=\"{}\" minor=\"{}\" servicepack=\"0\">{}{}</fix>", self.version.0, self.version.1, self.version.2, ws(rng), secs.join(&ws(rng)))
    }
    fn xml_section(&self, name: &str, items: &[Item], rng: &mut Rng) -> String { let mut s = format!("<{name}>"); self.xml_items(items, rng, &mut s); s + &format!("</{name}>") }
    fn name(&self, num: u32) -> String { esc(&self.field(num).name) }
    fn xml_items(&self, items: &[Item], rng: &mut Rng, s: &mut String) {
        for it in items {
            *s += &ws(rng);
            let tag = |kind: &str, name: String, req: bool, rng: &mut Rng| { let r = if req { if rng.chance(1, 8) { "y" } else { "Y" } } else { "N" };
                if rng.chance(1, 4) { format!("<{kind} required=\"{r}\" name=\"{name}\"") } else { format!("<{kind} name=\"{name}\" required=\"{r}\"") } };
            match it {
                Item::Field { num, req } => { *s += &tag("field", self.name(*num), *req, rng); *s += "/>" }
                Item::Comp { c, req } => { *s += &tag("component", esc(&self.comps[*c].name), *req, rng); *s += "/>" }
                Item::Group { num, req, items } => { *s += &tag("group", self.name(*num), *req, rng); *s += ">"; self.xml_items(items, rng, s); *s += "</group>" }
            }
        }
        *s += &ws(rng);
    }

    /// messages and groups that declare fields of the header and the trailer as well (only for what the dictionary answers)
    pub fn overlap(&mut self, rng: &mut Rng) {
        let extra: Vec<u32> = self.header.iter().chain(&self.trailer).filter_map(|i| match i { Item::Field { num, .. } => Some(*num), _ => None }).collect();
        let taken: Vec<BTreeSet<u32>> = self.msgs.iter().map(|m| self.scope(&m.items).tags()).collect();
        fn inner(items: &mut Vec<Item>, extra: &[u32], taken: &BTreeSet<u32>, rng: &mut Rng) {
            for _ in 0..1 + rng.below(3) { let n = *rng.pick(extra); if taken.contains(&n) || items.iter().any(|i| matches!(i, Item::Field { num, .. } if *num == n)) { continue } let at = rng.below(items.len() + 1); let req = rng.chance(1, 2); items.insert(at, Item::Field { num: n, req }) }
            for i in items.iter_mut() { if let Item::Group { items, .. } = i { if rng.chance(1, 3) { inner(items, extra, &BTreeSet::new(), rng) } } }
        }
        for (m, t) in self.msgs.iter_mut().zip(&taken) { if rng.chance(2, 3) { inner(&mut m.items, &extra, t, rng) } }
        // a group of a message in the trailer or the header as well
        let groups: Vec<Item> = self.msgs.iter().flat_map(|m| &m.items).filter(|i| matches!(i, Item::Group { .. })).cloned().collect();
        for _ in 0..rng.below(3) {
            if groups.is_empty() { break }
            let g = rng.pick(&groups).clone(); let Item::Group { num, .. } = &g else { continue };
            let sec = if rng.chance(2, 3) { &self.trailer } else { &self.header };
            if self.scope(sec).tags().contains(num) { continue }
            let to_trailer = std::ptr::eq(sec, &self.trailer);
            let sec = if to_trailer { &mut self.trailer } else { &mut self.header };
            let at = rng.below(sec.len() + 1); sec.insert(at, g);
        }
    }

    // ---- random dictionaries ----
    pub fn random(rng: &mut Rng) -> ADict {
        if rng.chance(1, 120) { let big = 1 + rng.below(9); return Self::large(rng, big) }
        Builder::new(rng).build()
    }
    /// large in one respect: fields, allowed values, messages, members, depth, components
    pub fn large(rng: &mut Rng, big: usize) -> ADict { let mut b = Builder::new(rng); b.big = big; b.build() }
}
pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;") }
fn ws(rng: &mut Rng) -> String { match rng.below(12) { 0 => "\n".into(), 1 => "\n  ".into(), 2 => "<!-- c -->".into(), 3 => "\t".into(), _ => String::new() } }

struct Builder<'a> { rng: &'a mut Rng, d: ADict, body_pool: Vec<u32>, comp_tags: Vec<BTreeSet<u32>>, comp_depth: Vec<usize>, big: usize, chain: usize }
impl<'a> Builder<'a> {
    fn new(rng: &'a mut Rng) -> Self { Builder { rng, d: ADict::default(), body_pool: vec![], comp_tags: vec![], comp_depth: vec![], big: 0, chain: 0 } }
    fn decl(&mut self, num: u32, name: String) {
        let ty = if self.rng.chance(1, 10) { let known = *self.rng.pick(TYPES); match self.rng.below(6) { 0 => known.to_lowercase(), 1 => format!("{known}S"), 2 => known[..known.len() - 1].to_string(), 3 => format!(" {known}"), _ => "WIBBLE".to_string() } } else { self.rng.pick(TYPES).to_string() };
        let nv = if self.rng.chance(1, 4) { self.rng.below(6) } else { 0 };
        let mut values = BTreeSet::new();
        for _ in 0..nv { values.insert(match self.rng.below(6) { 0 => "A&B".into(), 1 => "x y".into(), 2 => format!("{}", self.rng.below(100)), 3 => "\u{e9}t\u{e9}".to_string(), _ => ((b'A' + self.rng.below(26) as u8) as char).to_string() }); }
        let mut values: Vec<String> = values.into_iter().collect();
        self.rng.shuffle(&mut values);
        self.d.fields.push(FieldDecl { num, name, ty, values });
    }
    fn build(mut self) -> ADict {
        self.d.version = ("FIX".into(), "4".into(), (2 + self.rng.below(3)).to_string());
        let std = [(8u32, "BeginString"), (9, "BodyLength"), (35, "MsgType"), (49, "SenderCompID"), (56, "TargetCompID"), (34, "MsgSeqNum"), (52, "SendingTime"),
            (50, "SenderSubID"), (142, "SenderLocationID"), (57, "TargetSubID"), (143, "TargetLocationID"), (10, "CheckSum")];
        let mut used: BTreeSet<u32> = std.iter().map(|s| s.0).collect();
        used.insert(93); used.insert(89);
        let with_sig = self.rng.chance(1, 2);
        for (n, s) in std { self.decl(n, s.to_string()); }
        if with_sig { self.decl(93, "SignatureLength".into()); self.decl(89, "Signature".into()); }
        let total = if matches!(self.big, 1 | 4 | 5) { let most = if self.rng.chance(1, 6) { 3000 } else { 600 }; 200 + self.rng.below(most) } else if self.big == 9 { 120 + self.rng.below(100) } else { 14 + self.rng.below(40) };
        let mut nums = vec![];
        while nums.len() < total {
            let n = match self.rng.below(4) { 0 => 1 + self.rng.below(30) as u32, 1 => 100 + self.rng.below(900) as u32, 2 => 1 + self.rng.below(200) as u32, _ => 1 + self.rng.below(70000) as u32 };
            if used.insert(n) { nums.push(n) }
        }
        for n in &nums { let nm = format!("F{}", n); self.decl(*n, nm); }
        if self.big == 2 { for _ in 0..1 + self.rng.below(3) { let n = 50 + self.rng.below(1500); let k = self.rng.below(self.d.fields.len()); self.d.fields[k].values = (0..n).map(|i| format!("v{i}")).collect() } }
        if self.big == 8 { for f in self.d.fields.iter_mut().skip(14) { if self.rng.chance(1, 3) { f.name = format!("{}{}", f.name, "Long".repeat(1 + self.rng.below(300))) } } }
        let nh = if self.big == 1 && self.rng.chance(1, 3) { 100 } else { 2 + self.rng.below(4) }; // header-only fields
        let header_pool: Vec<u32> = nums.drain(..nh).collect();
        let nt = if self.big == 1 && self.rng.chance(1, 3) { (60 + self.rng.below(80)).min(nums.len() - 30) } else { self.rng.below(3) };
        let trailer_pool: Vec<u32> = nums.drain(..nt).collect();
        self.body_pool = nums;
        for i in 0..if self.big == 6 { 40 + self.rng.below(160) } else { self.rng.below(6) } {
            let mut used = BTreeSet::new();
            let size = 1 + self.comp_size();
            let items = self.items(&mut used, 1, size, true);
            let depth = 1;
            if self.big == 6 && items.is_empty() { continue }
            self.d.comps.push(CompDecl { name: format!("Comp{i}"), items });
            self.comp_tags.push(used);
            self.comp_depth.push(depth);
        }
        if self.big == 9 { // components within components, each with one field of its own
            let mut pool = self.body_pool.clone(); self.rng.shuffle(&mut pool);
            for n in pool.into_iter().take(10 + self.rng.below(70)) {
                let prev = self.d.comps.len();
                let mut items = vec![Item::Field { num: n, req: self.rng.chance(1, 2) }];
                let mut used = BTreeSet::from([n]);
                if self.chain > 0 { let c = Item::Comp { c: prev - 1, req: self.rng.chance(2, 3) }; if self.rng.chance(1, 2) { items.insert(0, c) } else { items.push(c) } used.extend(self.comp_tags[prev - 1].clone()) }
                self.chain += 1;
                self.d.comps.push(CompDecl { name: format!("Chain{n}"), items }); self.comp_tags.push(used); self.comp_depth.push(1);
            }
        }
        // header: 8, 9, 35 first by convention, then the rest; one optional group of its own tags
        let mut hdr = vec![Item::Field { num: 8, req: true }, Item::Field { num: 9, req: true }, Item::Field { num: 35, req: true }];
        let mut rest: Vec<Item> = [49, 56, 34, 52, 50, 142, 57, 143].iter().map(|n| Item::Field { num: *n, req: self.rng.chance(1, 2) }).collect();
        let mut hp = header_pool.clone();
        let mut groups = 0;
        while hp.len() >= 2 && self.rng.chance(2, 3) && groups < 3 {
            let g = hp.remove(0); let n = if groups == 0 { hp.len() } else { 1 + self.rng.below(hp.len()) }; let n = if n > 2 && self.rng.chance(1, 3) { 1 + self.rng.below(n) } else { n };
            let mut mem: Vec<u32> = hp.drain(..n).collect();
            let inner = if mem.len() >= 3 && self.rng.chance(1, 3) { let at = 1 + self.rng.below(mem.len() - 2); Some(mem.split_off(at)) } else { None };
            let mut items: Vec<Item> = mem.iter().map(|n| Item::Field { num: *n, req: self.rng.chance(1, 2) }).collect();
            if let Some(i) = inner { let sub: Vec<Item> = i[1..].iter().map(|n| Item::Field { num: *n, req: self.rng.chance(1, 2) }).collect(); let at = self.rng.below(items.len() + 1); let req = self.rng.chance(1, 2); items.insert(at, Item::Group { num: i[0], req, items: sub }) }
            if self.rng.chance(1, 3) { let b = *self.rng.pick(&self.body_pool); items.push(Item::Field { num: b, req: false }) }
            rest.push(Item::Group { num: g, req: self.rng.chance(1, 3), items });
            groups += 1;
        }
        rest.extend(hp.into_iter().map(|n| Item::Field { num: n, req: false }));
        self.rng.shuffle(&mut rest);
        hdr.extend(rest);
        self.d.header = hdr;
        let mut tr: Vec<Item> = trailer_pool.iter().map(|n| Item::Field { num: *n, req: self.rng.chance(1, 4) }).collect();
        if with_sig { tr.push(Item::Field { num: 93, req: false }); tr.push(Item::Field { num: 89, req: false }) }
        if self.rng.chance(1, 3) { self.rng.shuffle(&mut tr) }
        tr.push(Item::Field { num: 10, req: true });
        self.d.trailer = tr;
        let types = ["A", "D", "8", "E", "W", "AE", "0", "d", "UX1"];
        let nm = if self.big == 3 { 20 + self.rng.below(280) } else { 1 + self.rng.below(5) };
        let off = self.rng.below(types.len());
        for i in 0..nm {
            let mut used = BTreeSet::new();
            let size = if self.big == 4 { 100 + self.rng.below(1000) } else if self.big == 6 { 30 } else if self.rng.chance(1, 12) { 0 } else { 1 + self.rng.below(9) };
            let plain = self.big == 4 && self.rng.chance(1, 2);
            let mut items = if plain { let mut p = self.body_pool.clone(); self.rng.shuffle(&mut p); p.truncate(size); used.extend(p.iter().copied()); p.into_iter().map(|num| Item::Field { num, req: self.rng.chance(1, 2) }).collect() } else { self.items(&mut used, 0, size, false) };
            if self.big == 5 && i == 0 { let free: Vec<u32> = self.body_pool.iter().copied().filter(|n| !used.contains(n)).collect(); if free.len() > 20 { // one group with very many members
                let items2: Vec<Item> = free[1..].iter().map(|num| Item::Field { num: *num, req: self.rng.chance(1, 2) }).collect(); items.push(Item::Group { num: free[0], req: self.rng.chance(1, 2), items: items2 }) } }
            if self.big == 7 && i == 0 { // groups within groups
                let mut inner = vec![Item::Field { num: *self.rng.pick(&self.body_pool), req: true }];
                for _ in 0..5 + self.rng.below(25) {
                    let (num, first) = (*self.rng.pick(&self.body_pool), *self.rng.pick(&self.body_pool));
                    if num == first { continue }
                    inner = vec![Item::Field { num: first, req: self.rng.chance(1, 2) }, Item::Group { num, req: self.rng.chance(1, 2), items: inner }];
                }
                let free: Vec<u32> = self.body_pool.iter().copied().filter(|n| !used.contains(n)).collect();
                if let Some(num) = free.first() { items.push(Item::Group { num: *num, req: self.rng.chance(1, 2), items: inner }) }
            }
            if self.big == 9 && i == 0 { let all: Vec<usize> = (0..self.d.comps.len()).collect(); if let Some(c) = all.last() { if self.comp_tags[*c].is_disjoint(&used) { items.push(Item::Comp { c: *c, req: true }) } else { items = vec![Item::Comp { c: *c, req: self.rng.chance(1, 2) }] } } }
            self.d.msgs.push(MsgDecl { name: format!("Msg{i}"), ty: if i < types.len() { types[(off + i) % types.len()].into() } else { format!("M{i}") }, cat: if self.rng.chance(1, 2) { "app".into() } else { "admin".into() }, items });
        }
        if self.rng.chance(1, 5) { let h = std::mem::take(&mut self.d.header); self.d.header = self.wrap(h, 3, "Hdr") }
        if self.rng.chance(1, 8) { let t = std::mem::take(&mut self.d.trailer); self.d.trailer = self.wrap(t, 0, "Trl") }
        if self.rng.chance(1, 2) { self.rng.shuffle(&mut self.d.fields) }
        self.d
    }
    /// some of the items, after the first `keep`, declared through components of their own
    fn wrap(&mut self, mut items: Vec<Item>, keep: usize, name: &str) -> Vec<Item> {
        for i in 0..1 + self.rng.below(3) {
            let from = keep + self.rng.below(items.len() - keep + 1);
            let n = self.rng.below(4).min(items.len() - from);
            let part: Vec<Item> = items.drain(from..from + n).collect();
            if part.is_empty() { continue }
            let req = self.rng.chance(1, 2);
            items.insert(from, Item::Comp { c: self.d.comps.len(), req });
            self.d.comps.push(CompDecl { name: format!("{name}{i}"), items: part });
        }
        items
    }
    fn comp_size(&mut self) -> usize { self.rng.below(4) }
    /// items for one scope; `used` collects the tags at this scope's level
    fn items(&mut self, used: &mut BTreeSet<u32>, depth: usize, size: usize, _in_comp: bool) -> Vec<Item> {
        let mut v = vec![];
        for _ in 0..size {
            let req = self.rng.chance(1, 2);
            match self.rng.below(10) {
                0 | 1 if !self.d.comps.is_empty() => {
                    let c = self.rng.below(self.d.comps.len());
                    if self.comp_tags[c].is_disjoint(used) && !(v.is_empty() && self.comp_tags[c].is_empty()) { used.extend(self.comp_tags[c].clone()); v.push(Item::Comp { c, req }) }
                }
                2 | 3 | 4 if depth < 4 => {
                    let n = *self.rng.pick(&self.body_pool);
                    if used.insert(n) {
                        let mut inner = BTreeSet::new();
                        let sz = 1 + self.rng.below(5);
                        let mut items = self.items(&mut inner, depth + 1, sz, false);
                        if items.is_empty() || inner.is_empty() { items = vec![Item::Field { num: *self.rng.pick(&self.body_pool), req }] }
                        v.push(Item::Group { num: n, req, items });
                    }
                }
                _ => { let n = *self.rng.pick(&self.body_pool); if used.insert(n) { v.push(Item::Field { num: n, req }) } }
            }
        }
        v
    }
}
