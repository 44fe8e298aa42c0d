//! C24: stylesheets given to `css!` as they arrive on the page.
//!
//! Every stylesheet of a grammar is given to the real macro by the real compiler; the scripts it
//! produces are run by a real JavaScript engine against a stand-in `document`, and the text that
//! arrives in the page's style element is compared with what the generator of the grammar, which
//! knows where the class names are, expects.
use harness::{
    choose, ck,
    corpus::{self, Item},
    enumerate, fail, note, of, outcome, run, step, Cfg, Check,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    process::Command,
    sync::OnceLock,
};

/// Class names are written between these two marks.
const L: char = '\u{1}';
const R: char = '\u{2}';
fn marked(s: &str) -> String {
    s.replace('‹', "\u{1}").replace('›', "\u{2}")
}
fn source(s: &str) -> String {
    s.replace([L, R], "")
}
fn classes(s: &str) -> BTreeSet<String> {
    s.split(L).skip(1).map(|p| p.split(R).next().unwrap().to_string()).collect()
}
fn expected(s: &str, suffix: &str) -> String {
    s.replace(L, "").replace(R, suffix).replace("\r\n", "\n").replace('\r', "\n")
}

// ---------------------------------------------------------------- the grammar

const SEL_FEW: &[&str] = &[".‹a›", "div", ".‹a›.‹b›", "p.‹a-b›:hover", ":not(.‹b›)", ":is(.‹a›, :not(.‹c›))", "[x=\".a\"]", "*"];
const SEL_ALL: &[&str] = &[
    ".‹a›",
    "div",
    "*",
    "#a",
    ".‹a›.‹b›",
    ".‹a›.‹a›",
    "div.‹a›",
    "p.‹a-b›:hover",
    "#x.‹c›::before",
    ".‹a›::after",
    ":not(.‹a›)",
    ":is(.‹a›,.‹b›)",
    ":is(.‹a› > .‹b›, :not(.‹c›))",
    ":where(:is(:not(.‹a›)).‹b›).‹c›",
    ":nth-child(2n + 1 of .‹a›)",
    ":nth-child(2n+1)",
    ":has(> .‹a›)",
    "[x]",
    "[x=\".a\"]",
    "[x='.a .b']",
    "[x=\".a\"].‹b›",
    ".‹a›[x$=\".b\"]",
    ".‹-a›",
    ".‹_x›",
    ".‹été›",
    ".‹日本›",
    ".‹A›",
    ".‹a1›",
    ".‹a--b›",
    ".‹a›/*.b*/",
    "/*.a*/.‹b›",
    "./**/‹a›",
    "::slotted(.‹a›)",
    ":host-context(.‹a›)",
    ":lang(en)",
    "svg|a.‹b›",
    "\\.a",
    "[x=\\.a]",
    "a\\.b",
    "#\\.a",
    ".‹hover›:hover",
    ".‹not›:not(.‹is›)",
];
const COMB_FEW: &[&str] = &[" ", " > ", ", "];
const COMB_ALL: &[&str] = &[" ", ">", ", ", ",", " + ", "~", ",\n", "/* .x */ ", "/**/", "\t>\r\n"];
const BLOCKS: &[&str] = &[
    "{}",
    " {color:red}",
    " { color: red; margin: .5em -.5em; }",
    "{transition:all .3s}",
    "{ background: url(a.b.png) }",
    "{ background: url(\"x.y\") }",
    "{ content: \".a { }\" }",
    "{ content: \"}\" }",
    "{ content: '{' }",
    "{ /* .a } */ }",
    "{/* ` */}",
    "{/* ${1} */}",
    "{ content: \"\\201C\" }",
    "{ content: \"\\a\" }",
    "{ content: \"\\\\\" }",
    "{ content: \"\\\"\" }",
    "{ content: \"`\" }",
    "{ content: \"${x}\" }",
    "{ content: \"$\" }",
    "{ content: \"\\`\" }",
    "{ content: \"\\${\" }",
    "{ content: \"a\\\nb\" }",
    "{ content: \"é日本😀\" }",
    "{ --x: { .a: b } }",
    "{ --y: .a }",
    "{ width: calc(.5px + (1px * .5)) }",
    "{ color: red !important }",
    "{ grid-template-areas: \"a.b\" \"c .\" }",
    "{ filter: progid:DXImageTransform.Microsoft.gradient() }",
    "\n{\n\tcolor: red;\r\n}\n",
    "{ content: \"</styl\" }",
    "{ content: \"<!--\" }",
];
const WRAPS: &[&str] = &[
    "@media (min-width: .5em) {",
    "@media screen{",
    "@media screen and (max-width: 1.5em), print {\n",
    "@supports (display: grid) {",
    "@supports not (width: .5em) {",
    "@container side (min-width: 1.5em) {",
    "@layer a.b {",
    "@layer {",
    "@MEDIA print {",
    "@Layer x {",
];
const OPAQUE: &[&str] = &[
    "@keyframes k { from { left: .5em } 50.5% { left: 0 } to { color: red } }",
    "@font-face { font-family: f; src: url(a.b) format(\"x.y\") }",
    "@page :first { margin: .5in }",
    "@property --x { syntax: \"<length>\"; inherits: false; initial-value: .5px }",
    "@counter-style c { symbols: \".a\" }",
];
const STATEMENTS: &[&str] = &["@import url(a.b);", "@import \"a.b\" layer(x.y);", "@layer a.b, c;", "@charset \"utf-8\";", "@namespace svg url(x.y);"];
const SEPS: &[&str] = &["", "\n", " /* .c */ ", "/*`*/"];
const RULES: &[&str] = &[".‹a›{}", ".‹b›:hover { margin: .5em }", "div > .‹a›.‹c› { content: \".d\" }", "div {}", ".‹a-b›, .‹a›{}"];

/// One stylesheet of a family, every choice explored.
fn selectors(sels: &[&str], combs: &[&str], n: usize) -> String {
    let mut s = of(sels).to_string();
    for _ in 1..n {
        s += of(combs);
        s += of(sels);
    }
    s + " { color: red }"
}
fn blocks(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s += of(&[".‹a›", ":not(.‹b›)"]);
        s += of(BLOCKS);
    }
    s + of(&["", ".‹c› {}"])
}
fn nested(depth: usize) -> String {
    let mut s = String::new();
    let d = choose(depth + 1);
    for _ in 0..d {
        s += of(WRAPS);
        if depth == 1 || choose(2) == 1 {
            s += of(&["", ".‹b› {}"]);
        }
    }
    s += of(&[".‹a›:hover { margin: .5em }", "", OPAQUE[0], OPAQUE[1], STATEMENTS[0], STATEMENTS[2], "div > .‹a-b› { content: \"}\" }"]);
    for _ in 0..d {
        s += "}";
        if depth == 1 || choose(2) == 1 {
            s += of(&["", "\n.‹c›{}"]);
        }
    }
    s
}
fn sequence(n: usize, more: bool) -> String {
    let mut s = String::new();
    let all: Vec<&str> = RULES.iter().chain(OPAQUE).chain(STATEMENTS).chain(&["@media print { .‹a› {} .‹e› {} }", "@layer x.y { @supports (a:b) { .‹b›{} } }"]).copied().collect();
    for i in 0..n {
        if i > 0 {
            s += if more { *of(SEPS) } else { "\n" };
        }
        s += of(&all);
    }
    s
}
/// Arbitrary text inside a string or a comment.
fn text(n: usize) -> String {
    let comment = choose(2) == 1;
    let alphabet: &[&str] = &["\\", "`", "$", "{", "}", "n", ".a", "u"];
    let mut t = String::new();
    for _ in 0..n {
        t += of(alphabet);
    }
    if comment {
        format!("/* {t} */ .‹a› {{}}")
    } else {
        format!(".‹a› {{ content: \"{t} \"}} .‹b›{{}}")
    }
}
/// Many classes, many uses.
fn many(most: usize) -> String {
    let n = choose(most) + 1;
    let mut s = String::new();
    for _ in 0..n {
        s += &format!(".‹{}›{} {{}}", of(&["a", "b", "aa", "a-b"]), of(&["", " .‹a›", ".‹ab›"]));
    }
    s
}

/// Long stylesheets that differ in one place only.
fn long() -> String {
    let words = |n: usize| if n == 0 { String::new() } else { format!("/*{} */\n", " licence".repeat(n)) };
    let (a, b, c) = (words(*of(&[0, 4, 40, 700])), words(*of(&[0, 40])), words(*of(&[0, 4, 40, 700])));
    let (x, y) = *of(&[("red", "left"), ("blue", "left"), ("red", "right"), ("ReD", "left"), ("red ", "left")]);
    format!("{a}.‹a› {{ color: {x} }}\n{b}.‹b› {{ float: {y} }}\n{c}")
}
/// Many rules in a row.
fn rules() -> String {
    let n = *of(&[1, 2, 9, 10, 11, 32, 33, 64, 65, 120]);
    let within = choose(2) == 1;
    let mut s: String = (0..n).map(|i| format!(".‹n{i}› .‹n{}›:hover {{ color: #{i:06} }}\n", i / 2)).collect();
    if within {
        s = format!("@media print {{\n{s}}}\n.‹last› {{}}");
    }
    s
}

/// Different ways to write the macro's argument.
fn literal(src: &str, form: usize) -> String {
    match form {
        0 => format!("r##\"{src}\"##"),
        _ => format!("{src:?}"),
    }
}

struct Family {
    name: &'static str,
    gen: fn() -> String,
}
fn families(th: bool) -> Vec<Family> {
    let mut v = vec![
        Family { name: "every selector", gen: || selectors(SEL_ALL, COMB_ALL, 1) },
        Family { name: "every two simple selectors", gen: || selectors(SEL_FEW, COMB_FEW, 2) },
        Family { name: "every combinator", gen: || selectors(&[".‹a›", ":is(.‹b›)"], COMB_ALL, 3) },
        Family { name: "every block", gen: || blocks(1) },
        Family { name: "blocks within blocks", gen: || nested(1) },
        Family { name: "two rules", gen: || sequence(2, true) },
        Family { name: "text of strings and comments", gen: || text(3) },
        Family { name: "the same names again", gen: || many(3) },
        Family { name: "long stylesheets that differ in one place", gen: long },
        Family { name: "many rules", gen: rules },
    ];
    if th {
        v.extend([
            Family { name: "every two selectors", gen: || selectors(SEL_ALL, COMB_FEW, 2) },
            Family { name: "three selectors", gen: || selectors(&SEL_FEW[..6], COMB_FEW, 3) },
            Family { name: "every two blocks", gen: || blocks(2) },
            Family { name: "blocks within blocks within blocks", gen: || nested(2) },
            Family { name: "three rules", gen: || sequence(3, false) },
            Family { name: "the same names four times", gen: || many(4) },
            Family { name: "longer text of strings and comments", gen: || text(4) },
        ]);
    }
    v
}

// ---------------------------------------------------------------- what arrived

struct Arrived {
    item: Item,
    /// name of the class -> value of its constant
    consts: BTreeMap<String, String>,
    /// what the scripts of the stylesheet put on the page
    text: Result<String, String>,
    /// another stylesheet with the same suffix
    clash: Option<String>,
}
static ARRIVED: OnceLock<HashMap<String, Arrived>> = OnceLock::new();

fn suffix(consts: &BTreeMap<String, String>) -> Option<String> {
    consts.iter().next().and_then(|(c, v)| v.strip_prefix(c.as_str())).map(|s| s.to_string())
}

const NODE: &str = r#"
const vm = require('vm'), fs = require('fs');
const scripts = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
function fakes() {
  const sheets = [];
  class El {
    constructor(tag) { this.tag = String(tag).toLowerCase(); this.kids = []; this.attrs = {}; }
    get nodeName() { return this.tag.toUpperCase(); }
    get tagName() { return this.tag.toUpperCase(); }
    appendChild(k) { this.kids.push(k); return k; }
    append(...ks) { for (const k of ks) this.kids.push(typeof k === 'string' ? { text: k } : k); }
    prepend(...ks) { this.kids.unshift(...ks.map(k => typeof k === 'string' ? { text: k } : k)); }
    insertBefore(k, r) { const i = r ? this.kids.indexOf(r) : -1; if (i < 0) this.kids.push(k); else this.kids.splice(i, 0, k); return k; }
    insertAdjacentElement(w, k) { if (w === 'beforeend') this.kids.push(k); else this.kids.unshift(k); return k; }
    setAttribute(k, v) { this.attrs[k] = String(v); }
    remove() {}
    get lastChild() { return this.kids[this.kids.length - 1] || null; }
    get firstChild() { return this.kids[0] || null; }
    get style() { return {}; }
    get dataset() { return {}; }
    set innerHTML(v) { this.kids = [{ text: String(v) }]; }
    set textContent(v) { this.kids = [{ text: String(v) }]; }
    set innerText(v) { this.kids = [{ text: String(v) }]; }
    get innerHTML() { return text(this); }
    get textContent() { return text(this); }
  }
  const text = e => e.text !== undefined ? e.text : e.kids.map(text).join('');
  const head = new El('head'), body = new El('body');
  const document = {
    head, body,
    createElement: t => new El(t), createElementNS: (_, t) => new El(t),
    createTextNode: t => ({ text: String(t) }),
    querySelector: s => s === 'head' ? head : s === 'body' ? body : null,
    getElementsByTagName: s => s === 'head' ? [head] : [],
    adoptedStyleSheets: [],
  };
  class CSSStyleSheet { replaceSync(t) { this.t = String(t); } }
  const result = () => {
    let out = '';
    const walk = e => { if (e.tag === 'style') out += text(e); else if (e.kids) e.kids.forEach(walk); };
    walk(head); walk(body);
    for (const s of document.adoptedStyleSheets) out += s.t || '';
    return out;
  };
  return { document, CSSStyleSheet, result };
}
(async () => {
  const lines = [];
  const f = fakes();
  const g = { document: null, CSSStyleSheet: f.CSSStyleSheet };
  g.window = g; g.globalThis = g;
  const ctx = vm.createContext(g);
  for (const [i, js] of scripts) {
    const f = fakes();
    g.document = f.document; g.CSSStyleSheet = f.CSSStyleSheet;
    let r;
    try {
      const m = new vm.SourceTextModule(js, { context: ctx });
      await m.link(() => { throw new Error('import'); });
      await m.evaluate({ timeout: 5000 });
      r = '=' + encodeURIComponent(f.result());
    } catch (e) { r = '!' + encodeURIComponent(String(e)); }
    lines.push(i + r);
  }
  fs.writeFileSync(process.argv[3], lines.join('\n'));
})();
"#;
fn percent(s: &str) -> String {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// The position of a stylesheet in the corpus: its text and the way it is written in the source.
fn key(src: &str, form: usize) -> String {
    format!("{form}{src}")
}
fn form_of(src: &str) -> usize {
    // a carriage return cannot be written in a raw string
    if src.contains('\r') {
        1
    } else {
        choose(2)
    }
}
fn prepare(fams: &[Family]) {
    let mut sheets: BTreeMap<String, (String, usize)> = BTreeMap::new();
    for f in fams {
        for (m, form) in enumerate(|| {
            let m = marked(&(f.gen)());
            let form = form_of(&source(&m));
            (m, form)
        }) {
            sheets.entry(key(&source(&m), form)).or_insert((m, form));
        }
    }
    let list: Vec<(&String, &(String, usize))> = sheets.iter().collect();
    let mut names = BTreeSet::new();
    let mut items = vec![];
    for (_, (m, form)) in &list {
        let cl = classes(m);
        let mut t = format!("    use crate::fb::*;\n    ::async_ui_web::css!({});\n    pub fn run(out: &mut dyn FnMut(String)) {{\n", literal(&source(m), *form));
        for c in &cl {
            let id = c.replace('-', "_");
            t += &format!("        out({c:?}.to_string()); out({id}.to_string());\n");
            names.insert(id);
        }
        t += "    }";
        items.push(t);
    }
    let mut prelude = "mod fb {\n".to_string();
    for n in &names {
        prelude += &format!("    #[allow(non_upper_case_globals)] pub const {n}: &str = \"(no constant)\";\n");
    }
    prelude += "}\n";
    let main = r#"
extern crate async_ui_web;
use async_ui_web::__private_macro_only::wasm_bindgen::__fake::InlineJs;
extern "C" {
    #[link_name = "__start_fake_inline_js"]
    static START: InlineJs;
    #[link_name = "__stop_fake_inline_js"]
    static STOP: InlineJs;
}
fn before() {}
fn after() {
    unsafe {
        let mut p = &raw const START;
        while p != &raw const STOP {
            let m = (*p).0.split("::").nth(1).unwrap();
            println!("@{}", &m[1..]);
            println!("={:?}", "(script)");
            println!("={:?}", (*p).1);
            p = p.add(1);
        }
    }
}
"#;
    let got = corpus::build("css", &["async_ui_web"], &prelude, &items, main, 3000);
    // run the scripts
    let dir = corpus::scratch("css-node");
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let mut texts: Vec<Result<String, String>> = vec![Err("the stylesheet has no script".into()); got.len()];
    let mut per: Vec<String> = vec![String::new(); n];
    for (i, g) in got.iter().enumerate() {
        if let Item::Ran(l) = g {
            for w in l.chunks(2).filter(|w| w[0] == "(script)") {
                let p = &mut per[i % n];
                *p += if p.is_empty() { "[" } else { "," };
                *p += &format!("[{i},\"{}\"]", harness::json::esc(&w[1]));
            }
        }
    }
    fs::write(dir.join("run.js"), NODE).unwrap();
    let kids: Vec<_> = per
        .iter()
        .enumerate()
        .filter(|(_, p)| !p.is_empty())
        .map(|(k, p)| {
            fs::write(dir.join(format!("in{k}")), format!("{p}]")).unwrap();
            (k, Command::new("node").arg("--experimental-vm-modules").arg("--no-warnings").arg(dir.join("run.js")).arg(dir.join(format!("in{k}"))).arg(dir.join(format!("out{k}"))).spawn().unwrap())
        })
        .collect();
    for (k, mut c) in kids {
        if !c.wait().unwrap().success() {
            eprintln!("node failed");
            std::process::exit(2);
        }
        for l in fs::read_to_string(dir.join(format!("out{k}"))).unwrap().lines() {
            let p = l.find(['=', '!']).unwrap();
            let i: usize = l[..p].parse().unwrap();
            let t = percent(&l[p + 1..]);
            texts[i] = match (std::mem::replace(&mut texts[i], Ok(String::new())), &l[p..p + 1]) {
                (_, "!") => Err(format!("its script fails: {t}")),
                (Err(e), _) if e.starts_with("its script") => Err(e),
                (Err(_), _) => Ok(t),
                (Ok(b), _) => Ok(b + &t),
            };
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let mut all = HashMap::new();
    let mut by_suffix: HashMap<String, String> = HashMap::new();
    for (((k, (m, _)), item), text) in list.into_iter().zip(got).zip(texts) {
        let mut consts = BTreeMap::new();
        if let Item::Ran(l) = &item {
            for w in l.chunks(2).filter(|w| w[0] != "(script)") {
                consts.insert(w[0].clone(), w[1].clone());
            }
        }
        let src = source(m);
        let clash = suffix(&consts).and_then(|s| by_suffix.insert(s, src.clone())).filter(|o| *o != src);
        all.insert(k.clone(), Arrived { item, consts, text, clash });
    }
    let _ = ARRIVED.set(all);
}

fn sheet(gen: fn() -> String) {
    let m = marked(&gen());
    let src = source(&m);
    let form = form_of(&src);
    note(|| format!("css!({})", literal(&src, form)));
    let a = &ARRIVED.get().unwrap()[&key(&src, form)];
    match &a.item {
        Item::Rejected(e) => fail(format!("the stylesheet does not compile{e}")),
        Item::Died(e) => fail(format!("the program with the stylesheet dies: {e}")),
        Item::Ran(_) => {}
    }
    let cl = classes(&m);
    let suf = suffix(&a.consts).unwrap_or_default();
    for c in &cl {
        let v = a.consts.get(c).cloned().unwrap_or_default();
        ck!(v == format!("{c}{suf}") && !suf.is_empty(), "the constant of class {c} is {v:?}, the stylesheet's suffix is {suf:?}");
    }
    match &a.text {
        Err(e) => fail(e.clone()),
        Ok(t) => {
            let t = t.replace("\r\n", "\n").replace('\r', "\n");
            let e = expected(&m, &suf);
            ck!(t == e, "the page receives {t:?}, expected {e:?}");
        }
    }
    if let Some(o) = &a.clash {
        fail(format!("two different stylesheets have the same suffix {suf}: the other is {o:?}"));
    }
    step(&(src, form));
    outcome(&cl);
}

fn main() {
    let mut a = std::env::args().skip(1);
    let p = a.next().expect("property");
    let th = a.next().as_deref() == Some("thorough");
    if p != "C24" {
        eprintln!("unknown property {p}");
        std::process::exit(2)
    }
    let fams = families(th);
    if std::env::var_os("MC_CHILD").is_some() || a.any(|a| a == "--replay") {
        prepare(&fams);
    }
    let cfgs = fams.iter().map(|f| { let g = f.gen; Cfg::new(f.name, move || sheet(g)) }).collect();
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one stylesheet, given to the real macro by the real compiler, its script run by node against a stand-in document; every stylesheet of the grammar within the bounds named in the configuration".into(),
        assumptions: vec![
            "inline scripts of wasm-bindgen are run as ECMAScript modules; the text of a style element is what was assigned to it".into(),
            "class names are written without escapes, are Rust identifiers once - is _, and do not become equal that way".into(),
        ],
    })
}
