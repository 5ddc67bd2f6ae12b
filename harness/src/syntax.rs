//! Parsing and formatting, observed: the tree without its layout, the
//! comments, and what the formatter makes of the text in each configuration.
use eucalypt::syntax::export::format::{format_source, FormatterConfig};
use eucalypt::syntax::rowan::kind::{SyntaxKind, SyntaxNode};
use eucalypt::syntax::rowan::{parse_expr, parse_unit};
use rowan::ast::AstNode;
use rowan::NodeOrToken;
use serde_json::{json, Value};

fn sexpr(node: &SyntaxNode, out: &mut String, comments: &mut Vec<String>) {
    let kind = node.kind();
    if format!("{kind:?}").ends_with("STRING_PATTERN") {
        out.push_str(&format!("<{}>", node.text()));
        return;
    }
    out.push_str(&format!("({kind:?}"));
    for child in node.children_with_tokens() {
        match child {
            NodeOrToken::Node(n) => {
                out.push(' ');
                sexpr(&n, out, comments)
            }
            NodeOrToken::Token(t) => match t.kind() {
                SyntaxKind::WHITESPACE | SyntaxKind::COMMA => (),
                SyntaxKind::COMMENT => comments.push(t.text().trim_end().to_string()),
                _ => out.push_str(&format!(" <{}>", t.text())),
            },
        }
    }
    out.push(')');
}

fn look(text: &str) -> serde_json::Map<String, Value> {
    let p = parse_unit(text);
    let node = p.tree().syntax().clone();
    let (mut s, mut c) = (String::new(), vec![]);
    sexpr(&node, &mut s, &mut c);
    let errs: Vec<String> = p.errors().iter().map(|e| format!("{e:?}")).collect();
    let mut m = serde_json::Map::new();
    m.insert("lossless".into(), (node.text() == text).into());
    m.insert("errors".into(), json!(errs));
    m.insert("tree".into(), s.into());
    m.insert("comments".into(), json!(c));
    m
}

pub fn run(job: &Value) -> Value {
    let src = job["syntax"].as_str().unwrap_or("");
    let mut v = look(src);
    let e = parse_expr(src);
    v.insert(
        "expr_lossless".into(),
        (e.tree().syntax().text() == src).into(),
    );
    let mut fmts = vec![];
    for c in job["configs"].as_array().into_iter().flatten() {
        let n = |i: usize| c[i].as_u64().unwrap_or(2) as usize;
        let cfg = FormatterConfig::new(n(0), n(1), c[2].as_bool().unwrap_or(false));
        fmts.push(match format_source(src, &cfg) {
            Err(e) => json!({ "err": e }),
            Ok(text) => {
                let mut m = look(&text);
                m.insert("again".into(), match format_source(&text, &cfg) {
                    Ok(t) => t.into(),
                    Err(e) => json!({ "err": e }),
                });
                m.insert("text".into(), text.into());
                Value::Object(m)
            }
        });
    }
    v.insert("fmts".into(), fmts.into());
    Value::Object(v)
}
