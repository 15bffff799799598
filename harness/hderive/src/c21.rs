//! C21: the metric attribute declares exactly one faithfully described metric.
use crate::sym;
use crate::util::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use proc_macro_crate::{FoundCrate, ANSWERS};

fn toks(s: &str) -> TokenStream {
    s.parse().unwrap()
}
fn flat_into(t: TokenStream, out: &mut Vec<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => {
                        flat_into(g.stream(), out);
                        continue;
                    }
                };
                out.push(a.to_string());
                flat_into(g.stream(), out);
                out.push(b.to_string());
            }
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            TokenTree::Literal(l) => out.push(l.to_string()),
        }
    }
}
fn flat(t: TokenStream) -> Vec<String> {
    let mut v = vec![];
    flat_into(t, &mut v);
    v
}
fn same(a: &[String], b: &[String]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= str_eq(&a[i], &b[i]);
    }
    ok
}
fn is(a: &[String], b: &str) -> bool {
    same(a, &flat(toks(b)))
}

/// One declaration: the attribute's arguments, the item, and what must come of it.
#[derive(Default)]
struct Decl {
    attr: TokenStream,
    n: usize,
    bad: bool,
    name: Option<Vec<String>>,
    desc: Option<Vec<String>>,
    fmt: Option<Vec<String>>,
    krate: Option<Vec<String>>,
    /// key, token text, value
    meta: Option<Vec<(String, String, Vec<String>)>>,
    meta_dup: bool,
}
impl Decl {
    fn comma(&mut self) {
        if self.n > 0 {
            self.attr.extend([TokenTree::from(Punct::new(',', Spacing::Alone))]);
        }
        self.n += 1;
    }
    fn push(&mut self, key: &str, value: TokenStream) {
        self.comma();
        self.attr.extend([TokenTree::from(Ident::new(key, Span::call_site())), TokenTree::from(Punct::new('=', Spacing::Alone))]);
        self.attr.extend(value);
    }
    fn slot(&mut self, k: usize) -> (&'static str, &mut Option<Vec<String>>) {
        match k {
            0 => ("name", &mut self.name),
            1 => ("description", &mut self.desc),
            2 => ("formatter", &mut self.fmt),
            _ => ("crate", &mut self.krate),
        }
    }
    fn set(&mut self, k: usize, value: TokenStream) {
        let f = flat(value.clone());
        let (key, s) = self.slot(k);
        let dup = s.is_some();
        *s = Some(f);
        self.bad |= dup;
        self.push(key, value);
    }
    fn raw(&mut self, t: &str) {
        self.comma();
        self.attr.extend(toks(t));
        self.bad = true;
    }
    /// `entries`: (key is an identifier, key, value)
    fn metadata(&mut self, entries: &[(bool, String, TokenStream)], trailing: bool) {
        let mut body = TokenStream::new();
        let mut m: Vec<(String, String, Vec<String>)> = vec![];
        let mut dup = false;
        for (i, (id, k, v)) in entries.iter().enumerate() {
            if i > 0 {
                body.extend([TokenTree::from(Punct::new(',', Spacing::Alone))]);
            }
            let lit = Literal::string(k);
            let text = lit.to_string();
            body.extend([if *id { TokenTree::from(Ident::new(k, Span::call_site())) } else { TokenTree::from(lit) }]);
            body.extend([TokenTree::from(Punct::new('=', Spacing::Alone))]);
            body.extend(v.clone());
            for x in &m {
                dup |= str_eq(&x.0, k);
            }
            m.push((k.clone(), text, flat(v.clone())));
        }
        if trailing && !entries.is_empty() {
            body.extend([TokenTree::from(Punct::new(',', Spacing::Alone))]);
        }
        self.bad |= self.meta.is_some();
        self.meta_dup |= dup;
        self.meta = Some(m);
        self.push("metadata", [TokenTree::from(Group::new(Delimiter::Brace, body))].into_iter().collect());
    }
    /// Expand and compare.
    fn verify(self, item: &Item, default_crate: &str) {
        let out = flat(derive_lib::metric(self.attr.clone(), toks(&format!("{} = {};", item.head, item.expr))));
        let err = out.iter().any(|t| str_eq(t, "compile_error"));
        sym::observe(err as u64);
        sym::observe(out.len() as u64);
        if self.bad || item.bad {
            sym::check(err, "an illegal declaration is a compile error");
            return;
        }
        sym::check(err == self.meta_dup, "exactly the legal declarations are accepted");
        if err {
            return;
        }
        let head = flat(toks(&item.head));
        let expr = flat(toks(&item.expr));
        let krate = self.krate.unwrap_or_else(|| flat(toks(default_crate)));
        // the static itself
        let n = head.len();
        let starts: Vec<usize> = (0..out.len().saturating_sub(n)).filter(|i| out[*i + n] == "=" && same(&out[*i..*i + n], &head)).collect();
        sym::check(starts.len() == 1, "the static's own declaration is kept");
        let init = starts[0] + n + 1;
        let end = part(&out, init, ";");
        let at: Vec<usize> = (0..out.len()).filter(|i| out[*i] == CALL).collect();
        if at.is_empty() && !uses_call() {
            // another way to declare metrics: left to the compiled declarations
            return;
        }
        sym::check(at.len() == 1, "exactly one metric is declared");
        let at = at[0];
        sym::check(at + 2 < out.len() && out[at + 1] == "!" && matches!(out[at + 2].as_str(), "{" | "(" | "["), "the macro call");
        let mut from = at;
        while from > 0 && (out[from - 1] == ":" || (out[from] == ":" && out[from - 1].starts_with(|c: char| c == '_' || c.is_ascii_alphabetic()))) {
            from -= 1;
        }
        let path = &out[from..at];
        sym::check(path.len() > krate.len() && same(&path[..krate.len()], &krate), "declared through the chosen crate");
        // the fields
        let mut i = at + 3;
        let mut fields: Vec<(String, Vec<String>)> = vec![];
        while !matches!(out[i].as_str(), "}" | ")" | "]") {
            let key = out[i].clone();
            sym::check(out[i + 1] == ":", "a field");
            let e = part(&out, i + 2, ",");
            fields.push((key, out[i + 2..e].to_vec()));
            i = if out[e] == "," { e + 1 } else { e };
        }
        i += 1;
        if out[i] == ";" {
            i += 1;
        }
        let value = if init <= at && at < end {
            let mut v = bare(&out[init..end]).to_vec();
            // the call is inside the initialiser: without it, the given expression is left
            let skip = out[init..end].len() - v.len();
            sym::check(skip >= 2 && skip % 2 == 0, "the initial value is a block");
            let lo = init + skip / 2;
            v.drain(from - lo..i - lo);
            let v = ["const _: () = {};", "{}"].iter().map(|x| flat(toks(x))).find(|x| v.len() > x.len() && same(&v[..x.len()], x)).map_or(v.clone(), |x| v[x.len()..].to_vec());
            v
        } else {
            out[init..end].to_vec()
        };
        sym::check(same(bare(&value), bare(&expr)), "the initial value is kept");
        let field = |k: &str| -> Vec<String> {
            let f: Vec<&(String, Vec<String>)> = fields.iter().filter(|f| f.0 == k).collect();
            sym::check(f.len() == 1, "each field once");
            f.first().map(|f| literal(bare(&f.1))).unwrap_or_default()
        };
        sym::check(is(&field("metric"), item.ident), "the metric is the static itself");
        let name = self.name.unwrap_or_else(|| vec![Literal::string(item.ident).to_string()]);
        sym::check(same(&field("name"), bare(&name)), "the given name, or the identifier");
        let d = field("description");
        let d = ["::core::option::Option::", "::std::option::Option::", "core::option::Option::", "std::option::Option::", "Option::"]
            .iter()
            .map(|x| flat(toks(x)))
            .find(|x| d.len() > x.len() && same(&d[..x.len()], x))
            .map_or(&d[..], |x| &d[x.len()..]);
        match self.desc {
            None => sym::check(is(d, "None"), "no description"),
            Some(x) => sym::check(d.len() > 3 && d[0] == "Some" && d[1] == "(" && d[d.len() - 1] == ")" && same(bare(&d[1..]), bare(&x)), "the given description"),
        }
        let f = field("formatter");
        match self.fmt {
            Some(x) => sym::check(same(&f, bare(&x)), "the given formatter"),
            None => sym::check(f.len() > krate.len() && same(&f[..krate.len()], &krate) && f[f.len() - 1] == "default_formatter", "the default formatter"),
        }
        // metadata, in any order
        let m = fields.iter().find(|f| f.0 == "metadata").map(|f| f.1.clone()).unwrap_or_default();
        sym::check(m.len() >= 2 && m[0] == "{" && m[m.len() - 1] == "}", "the metadata block");
        let mut got: Vec<(Vec<String>, Vec<String>)> = vec![];
        let mut i = 1;
        while i < m.len() - 1 {
            let e = part(&m, i, ",");
            let k = (i..e.saturating_sub(1)).find(|k| m[*k] == "=" && m[*k + 1] == ">");
            sym::check(k.is_some(), "a metadata entry");
            let k = k.unwrap_or(i);
            got.push((literal(bare(&m[i..k])), bare(&m[k + 2..e]).to_vec()));
            i = e + 1;
        }
        let want = self.meta.unwrap_or_default();
        sym::check(got.len() == want.len(), "as many metadata entries as given");
        for w in &want {
            let mut n = 0u64;
            for g in &got {
                n += (g.0.len() == 1 && str_eq(&g.0[0], &w.1) & same(&g.1, bare(&w.2))) as u64;
            }
            sym::check(n == 1, "each metadata pair");
        }
    }
}
const CALL: &str = "declare_metric_v1";
/// Whether a plain declaration is made through the declaring macro.
fn uses_call() -> bool {
    flat(derive_lib::metric(TokenStream::new(), toks("static X: Counter = Counter::new();"))).iter().any(|t| t == CALL)
}
/// Where the part that starts at `i` ends: at `sep` or at the closing bracket around it.
fn part(t: &[String], i: usize, sep: &str) -> usize {
    let mut depth = 0;
    for k in i..t.len() {
        match t[k].as_str() {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => {
                if depth == 0 {
                    return k;
                }
                depth -= 1;
            }
            x if depth == 0 && x == sep => return k,
            _ => {}
        }
    }
    t.len()
}
/// Without parentheses or braces around the whole.
fn bare(t: &[String]) -> &[String] {
    let n = t.len();
    if n > 2 && ((t[0] == "(" && t[n - 1] == ")") || (t[0] == "{" && t[n - 1] == "}")) && part(t, 1, "") == n - 1 {
        // a tuple is not a parenthesised expression
        if t[0] == "{" || part(t, 1, ",") == n - 1 {
            return bare(&t[1..n - 1]);
        }
    }
    t
}
/// `stringify!(x)` as a literal.
fn literal(t: &[String]) -> Vec<String> {
    let n = t.len();
    if n >= 5 && t[n - 5] == "stringify" && t[n - 4] == "!" && t[n - 3] == "(" && t[n - 1] == ")" {
        return vec![Literal::string(&t[n - 2]).to_string()];
    }
    t.to_vec()
}
struct Item {
    head: String,
    ident: &'static str,
    expr: String,
    bad: bool,
}
fn item(k: usize) -> Item {
    let (head, ident, expr, bad) = match k {
        0 => ("static METRIC: Counter", "METRIC", "Counter::new()", false),
        1 => (
            "#[doc = \" a metric\"] #[allow(dead_code)] pub(crate) static A_B: metriken::Lazy<Counter, fn() -> Counter>",
            "A_B",
            "{ const N: u64 = 3; metriken::Lazy::new(|| Counter::with_value(N)) }",
            false,
        ),
        2 => ("pub static name: Foo", "name", "Foo { a: [1, 2], b: (\"x\", 'y') }", false),
        3 => ("const METRIC: Counter", "METRIC", "Counter::new()", true),
        _ => ("let METRIC: Counter", "METRIC", "Counter::new()", true),
    };
    Item { head: head.to_string(), ident, expr: expr.to_string(), bad }
}
fn answer() -> &'static str {
    let (a, name) = match sym::choose(3, "crate_name") {
        0 => (None, "metriken"),
        1 => (Some(FoundCrate::Itself), "metriken"),
        _ => (Some(FoundCrate::Name("renamed".to_string())), "renamed"),
    };
    ANSWERS.with(|x| {
        let mut x = x.borrow_mut();
        x.clear();
        x.push(("metriken-core".to_string(), FoundCrate::Name("wrong".to_string())));
        if let Some(a) = a {
            x.push(("metriken".to_string(), a));
        }
    });
    name
}
fn arg(d: &mut Decl, k: usize) {
    match k {
        0 => d.set(0, toks("\"n\"")),
        1 => d.set(1, toks("\"some text\"")),
        2 => d.set(2, toks("&formatters::custom")),
        3 => d.set(3, toks("crate::bonus")),
        4 => d.metadata(&[], false),
        5 => d.metadata(
            &[(true, "b".to_string(), toks("\"1\"")), (false, "a c".to_string(), toks("concat!(\"x\", \"y\")")), (true, "crate_".to_string(), toks("\"\""))],
            true,
        ),
        6 => d.set(0, toks("NAMES[2]")),
        7 => d.set(1, toks("concat!(\"a\", env!(\"B\"))")),
        8 => d.set(3, toks("::x")),
        9 => d.raw("unknown = \"x\""),
        _ => d.raw("name"),
    }
}
fn args(n: usize, kinds: usize, items: usize) {
    let mut d = Decl::default();
    let len = sym::choose(n + 1, "args");
    for _ in 0..len {
        let k = sym::choose(kinds, "arg");
        arg(&mut d, k);
    }
    let it = item(sym::choose(items, "item"));
    let krate = if len <= 1 { answer() } else { "metriken" };
    d.verify(&it, krate);
    sym::cover("end");
}
/// Every sequence of up to two arguments, legal or not, over every item.
#[no_mangle]
pub extern "C" fn h_c21_args2() {
    args(2, 11, 5);
}
/// Every sequence of up to three arguments.
#[no_mangle]
pub extern "C" fn h_c21_args3() {
    args(3, 6, 2);
}
/// Every sequence of up to four arguments.
#[no_mangle]
pub extern "C" fn h_c21_args4() {
    args(4, 6, 1);
}
/// Every order of all five arguments.
#[no_mangle]
pub extern "C" fn h_c21_orders() {
    let mut d = Decl::default();
    let mut left = vec![0, 1, 2, 3, 5];
    while !left.is_empty() {
        let i = sym::choose(left.len(), "next");
        let k = left.remove(i);
        arg(&mut d, k);
    }
    d.verify(&item(1), "metriken");
    sym::cover("end");
}
/// Malformed argument lists.
#[no_mangle]
pub extern "C" fn h_c21_malformed() {
    let bad = [
        "name = ", "= \"x\"", "name \"x\"", "\"name\" = \"x\"", "name = \"a\" description = \"b\"", "metadata = \"x\"", "metadata = { a }", "metadata = { a = }",
        "metadata = { a: \"b\" }", "metadata = { 1 = \"b\" }", "metadata = { a = \"1\" b = \"2\" }", "crate = \"metriken\"", "description", "Name = \"x\"", "names = \"x\"", ", name = \"x\"",
        "name = \"x\",, description = \"y\"", "metadata = ( a = \"b\" )", "formatter", "crate = self::<x>",
    ];
    let mut d = Decl::default();
    if sym::flag("first") {
        arg(&mut d, 1);
    }
    let b = bad[sym::choose(bad.len(), "bad")];
    d.raw(b);
    d.verify(&item(0), "metriken");
    sym::cover("end");
}
/// Arbitrary text in the literals; two or three metadata keys, by identifier or by literal.
#[no_mangle]
pub extern "C" fn h_c21_literals() {
    let mut d = Decl::default();
    let s = |n: usize, t: &str| -> TokenStream { [TokenTree::from(Literal::string(&string(n, t)))].into_iter().collect() };
    if sym::flag("name") {
        d.set(0, s(1, "n"));
    } else {
        d.set(1, s(1, "d"));
    }
    let first_ident = sym::flag("ident");
    let k0 = if first_ident { "a".to_string() } else { string(1, "k0.") };
    let k1 = string(sym::choose(2, "len"), "k1.");
    d.metadata(&[(first_ident, k0, toks("\"v\"")), (false, k1, toks("\"w\""))], false);
    d.verify(&item(0), "metriken");
    sym::cover("end");
}
