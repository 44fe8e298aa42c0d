//! C25: `select!`.
//!
//! Programs made of every form of pattern, future, handler and separator are compiled with the
//! real macro by the real compiler; each is run with every schedule of its branches. The
//! generator knows what each branch binds and yields.
use harness::{
    choose, ck,
    corpus::{self, Item},
    enumerate, fail, note, of, outcome, run, sel, step, Cfg, Check,
};
use std::{
    collections::{BTreeMap, HashMap},
    sync::OnceLock,
};

/// (pattern, expression of the value, what the handler uses); V is the value of the branch.
const PATTERNS: &[(&str, &str, &str)] = &[
    ("a", "V", "a"),
    ("_", "V", "V"),
    ("(a, _)", "(V, 0u8)", "a"),
    ("S { x: a, .. }", "S { x: V, y: 1 }", "a"),
    ("mut a", "V", "{ a += 1i64; a - 1i64 }"),
    ("ref a", "V", "*a"),
    ("W(a)", "W(V)", "a"),
    ("[_, a]", "[0i64, V]", "a"),
    ("a @ _", "V", "a"),
    ("(Ok(a) | Err(a))", "{ let r: Result<i64, i64> = Err(V); r }", "a"),
    ("&a", "&V", "a"),
    ("harness::sel::W::<i64>(a)", "W(V)", "a"),
    ("(a)", "V", "a"),
    ("S { x: a, y: _ }", "S { x: V, y: 1 }", "a"),
    ("(.., W((a, ())))", "(1u8, W((V, ())))", "a"),
    ("()", "()", "V"),
    ("[.., a]", "[1, 2, V]", "a"),
];
/// Expression of the future; I the branch, V the value. `F` declares a variable before.
const FUTURES: &[(&str, bool)] = &[
    ("br(I, V)", false),
    ("async { br(I, V).await }", false),
    ("async move { br(I, V).await }", false),
    ("&mut fI", true),
    ("fI", false),
    ("{ br(I, V) }", false),
    ("if true { br(I, V) } else { br(99, V) }", false),
    ("Box::pin(br(I, V))", false),
    ("(|| br(I, V))()", false),
    ("match 0 { 0 => br(I, V), _ => br(99, V) }", false),
    ("unsafe { br(I, V) }", false),
    ("wrap(br(I, V)).0", false),
    ("harness::brm!(I, V)", false),
    ("br(I, V) + Nothing", false),
    ("Pin::new(&mut fI)", true),
    ("loop { break br(I, V) }", false),
    ("async { let r = br(I, V).await; r }", false),
    ("async { ::async_ui_web::select! { x = br(I, V) => x } }", false),
    ("async { ::async_ui_web::select! { x = std::future::pending() => x, y = br(I, V) => { y } } }", false),
    ("*Box::new(br(I, V))", false),
    ("async { let seen = &acc; let r = br(I, V).await; let _ = seen.len(); r }", false),
    ("async { ready(()).await; br(I, V) }.await", false),
];
/// (handler, is a block, what the whole gives: `+` the value passed on, `=` the loop is left with
/// it, `o`/`e` the surrounding function returns Ok/Err with it); X the bound value, H its name.
const HANDLERS: &[(&str, bool, char)] = &[
    ("hv(H, X)", false, '+'),
    ("{ log(H); X }", true, '+'),
    ("{ acc.push(X); hv(H, acc[0]) }", true, '+'),
    ("hv(H, X) + 0", false, '+'),
    ("if true { hv(H, X) } else { 0 }", false, '+'),
    ("match hv(H, X) { v => v }", false, '+'),
    ("{ return Ok(hv(H, X)) }", true, 'o'),
    ("return Err(hv(H, X))", false, 'e'),
    ("break 'l hv(H, X)", false, '='),
    ("{ break 'l hv(H, X); }", true, '='),
    ("{ let v: Result<i64, i64> = Err(hv(H, X)); v? }", true, 'e'),
    ("Err::<i64, i64>(hv(H, X))?", false, 'e'),
    ("async { hv(H, X) }.await", false, '+'),
    ("{ Yield(false).await; hv(H, X) }", true, '+'),
    ("(|| hv(H, X))()", false, '+'),
    ("unsafe { hv(H, X) }", false, '+'),
    ("loop { break hv(H, X) }", false, '+'),
    ("::async_ui_web::select! { b = ready(0i64) => hv(H, X) + b }", false, '+'),
    ("{ ::async_ui_web::select! { b = std::future::pending() => b, _ = ready(0i64) => { hv(H, X) }, } }", true, '+'),
    ("-(-hv(H, X))", false, '+'),
    ("hv(H, X) as i64", false, '+'),
    ("harness::hvm!(H, X)", false, '+'),
    ("vec![hv(H, X)][0]", false, '+'),
    ("{ { hv(H, X) } }", true, '+'),
    ("{ let v = hv(H, X); if v > 0 { v } else { 0 } }", true, '+'),
    ("W(hv(H, X)).0", false, '+'),
    ("S { x: hv(H, X), y: 0 }.x", false, '+'),
    ("'k: { break 'k hv(H, X) }", false, '+'),
];

struct Branch {
    pat: usize,
    fut: usize,
    han: usize,
    /// what is written between the handler and the next branch
    comma: bool,
}
struct Prog {
    text: String,
    n: usize,
    scheds: Vec<Vec<usize>>,
    rounds: usize,
    kept: Vec<bool>,
    value: Vec<String>,
}
/// Is the comma after this handler optional here?
fn optional(b: &Branch, last: bool) -> bool {
    last || HANDLERS[b.han].1
}
fn prog(br: &[Branch]) -> Prog {
    let n = br.len();
    let mut pre = String::new();
    let mut body = String::new();
    let (mut kept, mut value) = (vec![], vec![]);
    for (i, b) in br.iter().enumerate() {
        let v = format!("{}i64", 10 + i);
        let (p, e, x) = PATTERNS[b.pat];
        let e = e.replace('V', &v);
        let x = x.replace('V', &v);
        let (f, keep) = FUTURES[b.fut];
        let fill = |s: &str| s.replace("I, V", &format!("{i}, {e}")).replace("99, V", &format!("99, {e}")).replace("fI", &format!("f{i}"));
        let f2 = fill(f);
        if f.contains("fI") {
            pre += &format!("        let mut f{i} = br({i}, {e});\n");
        }
        let (h, _, k) = HANDLERS[b.han];
        let h = h.replace('H', &format!("\"h{i}\"")).replace('X', &x);
        body += &format!("                {p} = {f2} => {h}{}\n", if b.comma { "," } else { "" });
        kept.push(keep);
        let v = 10 + i as i64;
        value.push(match k {
            '+' => format!("Ok({})", v + 1000),
            '=' | 'o' => format!("Ok({v})"),
            _ => format!("Err({v})"),
        });
    }
    let text = format!(
        "        let mut acc: Vec<i64> = vec![];\n{pre}        let r: Result<i64, i64> = async {{\n            let v: i64 = 'l: loop {{\n                let v: i64 = ::async_ui_web::select! {{\n{body}                }};\n                break 'l v + 1000;\n            }};\n            Ok(v)\n        }}.await;\n        r"
    );
    let rounds = if n <= 2 { 3 } else { 2 };
    let scheds = if n <= 3 { sel::schedules(n, rounds) } else { sel::few_schedules(n) };
    Prog { text, n, scheds, rounds, kept, value }
}
fn branch(pats: &[usize], futs: &[usize], hans: &[usize], last: bool, commas: bool) -> Branch {
    let mut b = Branch { pat: *of(pats), fut: *of(futs), han: *of(hans), comma: true };
    if optional(&b, last) {
        b.comma = commas && choose(2) == 0;
    }
    b
}
fn upto(n: usize) -> Vec<usize> {
    (0..n).collect()
}
/// One branch takes every form, at every place among `n`; the others are plain.
fn one(n: usize, pats: &[usize], futs: &[usize], hans: &[usize], commas: bool) -> Prog {
    let at = choose(n);
    let o = if commas { *of(&[0, 1]) } else { 1 };
    let br: Vec<Branch> = (0..n)
        .map(|i| if i == at { branch(pats, futs, hans, i + 1 == n, commas) } else { Branch { pat: 0, fut: 0, han: o, comma: o == 0 && i + 1 != n } })
        .collect();
    prog(&br)
}
fn all(n: usize, pats: &[usize], futs: &[usize], hans: &[usize], commas: bool) -> Prog {
    prog(&(0..n).map(|i| branch(pats, futs, hans, i + 1 == n, commas)).collect::<Vec<_>>())
}
fn arity(most: usize) -> Prog {
    let n = choose(most) + 1;
    let h = *of(&[0usize, 1, 9]);
    let comma = choose(2) == 0;
    prog(&(0..n).map(|i| Branch { pat: i % 3, fut: i % 3, han: h, comma: comma || (!HANDLERS[h].1 && i + 1 < n) }).collect::<Vec<_>>())
}

struct Family {
    name: &'static str,
    gen: fn() -> Prog,
}
fn families(th: bool) -> Vec<Family> {
    let mut v = vec![
        Family { name: "every handler and separator", gen: || one(2, &[0], &[0], &upto(HANDLERS.len()), true) },
        Family { name: "every pattern and handler", gen: || one(2, &upto(PATTERNS.len()), &[0], &upto(HANDLERS.len()), false) },
        Family { name: "every future and some handlers", gen: || one(2, &[0, 2], &upto(FUTURES.len()), &[0, 1, 9], true) },
        Family { name: "every two handlers", gen: || all(2, &[0], &[0], &upto(HANDLERS.len()), false) },
        Family { name: "every two futures", gen: || all(2, &[0], &upto(FUTURES.len()), &[1], false) },
        Family { name: "three branches", gen: || all(3, &[0], &[0, 3], &[0, 1, 9], true) },
        Family { name: "one to twelve branches", gen: || arity(12) },
    ];
    if th {
        v.extend([
            Family { name: "every pattern and future", gen: || one(2, &upto(PATTERNS.len()), &upto(FUTURES.len()), &[0, 1], false) },
            Family { name: "every future and handler", gen: || one(2, &[0], &upto(FUTURES.len()), &upto(HANDLERS.len()), true) },
            Family { name: "every pattern and handler among three", gen: || one(3, &upto(PATTERNS.len()), &[0], &upto(HANDLERS.len()), true) },
            Family { name: "every two patterns", gen: || all(2, &upto(PATTERNS.len()), &[0, 3], &[0, 1], false) },
            Family { name: "every two handlers and separators", gen: || all(2, &[0], &[1], &upto(HANDLERS.len()), true) },
            Family { name: "three handlers", gen: || all(3, &[0], &[1], &upto(17), false) },
        ]);
    }
    v
}

static RAN: OnceLock<HashMap<String, Item>> = OnceLock::new();

fn prepare(fams: &[Family]) {
    let mut progs: BTreeMap<String, Prog> = BTreeMap::new();
    for f in fams {
        for p in enumerate(f.gen) {
            progs.entry(p.text.clone()).or_insert(p);
        }
    }
    let list: Vec<Prog> = progs.into_values().collect();
    let items: Vec<String> = list
        .iter()
        .map(|p| {
            let sch = if p.n <= 3 { format!("schedules({}, {})", p.n, p.rounds) } else { format!("few_schedules({})", p.n) };
            format!(
                "    use harness::sel::*;\n    use std::pin::Pin;\n    pub fn run(out: &mut dyn FnMut(String)) {{\n        explore({sch}, {}, out, || Box::pin(async {{\n{}\n        }}));\n    }}",
                p.rounds, p.text
            )
        })
        .collect();
    let got = corpus::build("select", &["async_ui_web", "harness"], "extern crate async_ui_web;\nextern crate harness;", &items, "fn before() {}\nfn after() {}", 800);
    let _ = RAN.set(list.into_iter().map(|p| p.text).zip(got).collect());
}

fn program(gen: fn() -> Prog) {
    let p = gen();
    note(|| p.text.clone());
    let lines = match &RAN.get().unwrap()[&p.text] {
        Item::Rejected(e) => fail(format!("the program does not compile{e}")),
        Item::Died(e) => fail(format!("the program dies: {e}")),
        Item::Ran(l) => l,
    };
    // every schedule of the program
    let k = choose(p.scheds.len());
    let sched = &p.scheds[k];
    let Some(line) = lines.get(k) else { fail(format!("the program gives {} results for {} schedules", lines.len(), p.scheds.len())) };
    let mut it = line.splitn(3, ';');
    let (s, value, log) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
    if s != sched.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(",") {
        harness::harness_bug(format!("result for schedule {s}, wanted {sched:?}"));
    }
    note(|| format!("branches ready in rounds {s} of {}: {value}, log {log}", p.rounds));
    let log: Vec<&str> = log.split(' ').collect();
    let at = |e: &str| log.iter().position(|l| *l == e);
    let times = |e: &str| log.iter().filter(|l| **l == e).count();
    let handlers: Vec<&&str> = log.iter().filter(|l| l.starts_with('h')).collect();
    let m = *sched.iter().min().unwrap();
    let vat = at("value").or(at("end")).unwrap();
    if m >= p.rounds {
        ck!(value == "pending" && handlers.is_empty(), "no branch completes, but the select gives {value}, handlers run: {handlers:?}");
    } else {
        let w = (0..p.n).find(|i| sched[*i] == m && p.value[*i] == value);
        let Some(w) = w else {
            fail(format!("branches {:?} complete first, the select gives {value}; expected one of {:?}", (0..p.n).filter(|i| sched[*i] == m).collect::<Vec<_>>(), (0..p.n).filter(|i| sched[*i] == m).map(|i| &p.value[i]).collect::<Vec<_>>()))
        };
        let h = format!("h{w}");
        ck!(handlers.len() == 1 && *handlers[0] == h, "branch {w} completed first, handlers run: {handlers:?}");
        let hat = at(&h).unwrap();
        ck!(at(&format!("r{w}")).is_some_and(|r| r < hat), "the handler of branch {w} runs before the branch completed");
        for j in (0..p.n).filter(|j| *j != w) {
            let d = format!("d{j}");
            if at(&format!("p{j}")).is_some() && !p.kept[j] {
                ck!(at(&d).is_some_and(|d| d < hat), "branch {j} is not cancelled when the handler of branch {w} runs");
            }
        }
        let round = log[..vat].iter().filter(|l| l.starts_with("round")).next_back().copied().unwrap_or("");
        ck!(round == format!("round{m}"), "branch {w} completes in round {m}, the select gives its value in {round}");
    }
    for j in 0..p.n {
        ck!(times(&format!("d{j}")) <= 1, "branch {j} is dropped twice");
        if let Some(f) = at(&format!("p{j}")) {
            ck!(times(&format!("d{j}")) == 1, "branch {j} is never dropped");
            ck!(m == 0 || f < at("round1").unwrap_or(log.len()), "branch {j} is not started at once");
        } else {
            ck!(m == 0, "branch {j} is never run");
        }
    }
    step(&(&p.text, k));
    outcome(&(value, p.n, sched));
}

fn main() {
    let mut a = std::env::args().skip(1);
    let p = a.next().expect("property");
    let th = a.next().as_deref() == Some("thorough");
    if p != "C25" {
        eprintln!("unknown property {p}");
        std::process::exit(2)
    }
    let fams = families(th);
    if std::env::var_os("MC_CHILD").is_some() || a.any(|a| a == "--replay") {
        prepare(&fams);
    }
    let cfgs = fams.iter().map(|f| { let g = f.gen; Cfg::new(f.name, move || program(g)) }).collect();
    run(Check {
        property: p,
        tier: if th { "thorough".into() } else { "quick".into() },
        cfgs,
        rule: "one execution = one program with one schedule of its branches; every program of the grammar within the configuration is compiled with the real macro by the real compiler, and run with every schedule (which branch becomes ready in which round, or never)".into(),
        assumptions: vec!["branches are woken by the environment in the round in which they become ready, and only then".into()],
    })
}
