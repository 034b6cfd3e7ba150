//! Node tree.
use super::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum NodeKind {
    Element,
    Text,
    Comment,
    Document,
    Fragment,
}
pub struct NodeData {
    pub kind: NodeKind,
    /// lower-case tag name, or `#text` etc.
    pub name: String,
    pub parent: RefCell<Weak<Obj>>,
    pub children: RefCell<Vec<Rc<Obj>>>,
    pub data: RefCell<String>,
    pub attrs: RefCell<BTreeMap<String, String>>,
    /// `<option>` selectedness and dirtiness
    pub selected: Cell<bool>,
    pub dirty: Cell<bool>,
    /// kept alive by the page, as it had a child
    pub kept: Cell<bool>,
}
impl NodeData {
    pub fn new(kind: NodeKind, name: &str) -> Self {
        NodeData {
            kind,
            name: name.to_string(),
            parent: Default::default(),
            children: Default::default(),
            data: Default::default(),
            attrs: Default::default(),
            selected: Cell::new(false),
            dirty: Cell::new(false),
            kept: Cell::new(false),
        }
    }
}
fn nd(o: &Rc<Obj>) -> &NodeData {
    o.node().expect("node")
}
pub fn new_element_raw(tag: &str) -> Rc<Obj> {
    stats(|s| s.nodes_created += 1);
    let tag = tag.to_ascii_lowercase();
    Obj::new(class_for_tag(&tag), Data::Node(NodeData::new(NodeKind::Element, &tag)))
}
pub fn new_char_data(kind: NodeKind, data: &str) -> Rc<Obj> {
    stats(|s| s.nodes_created += 1);
    let (class, name) = match kind {
        NodeKind::Text => ("Text", "#text"),
        _ => ("Comment", "#comment"),
    };
    let n = NodeData::new(kind, name);
    *n.data.borrow_mut() = data.to_string();
    Obj::new(class, Data::Node(n))
}
pub fn new_fragment() -> Rc<Obj> {
    Obj::new("DocumentFragment", Data::Node(NodeData::new(NodeKind::Fragment, "#document-fragment")))
}
pub fn parent_of(o: &Rc<Obj>) -> Option<Rc<Obj>> {
    o.node().and_then(|n| n.parent.borrow().upgrade())
}
pub fn children_of(o: &Rc<Obj>) -> Vec<Rc<Obj>> {
    o.node().map(|n| n.children.borrow().clone()).unwrap_or_default()
}
pub fn index_of(parent: &Rc<Obj>, child: &Rc<Obj>) -> Option<usize> {
    nd(parent).children.borrow().iter().position(|c| Rc::ptr_eq(c, child))
}
fn sibling(o: &Rc<Obj>, delta: isize) -> Option<Rc<Obj>> {
    let p = parent_of(o)?;
    let ix = index_of(&p, o)? as isize + delta;
    if ix < 0 {
        return None;
    }
    let r = nd(&p).children.borrow().get(ix as usize).cloned();
    r
}
pub fn unlink(o: &Rc<Obj>) {
    if let Some(p) = parent_of(o) {
        if let Some(ix) = index_of(&p, o) {
            let removed = nd(&p).children.borrow_mut().remove(ix);
            drop(removed);
        }
        *nd(o).parent.borrow_mut() = Weak::new();
        stats(|s| s.removes += 1);
        html::after_children_changed(&p);
    }
}
pub fn link_last(p: &Rc<Obj>, c: &Rc<Obj>) {
    nd(p).children.borrow_mut().push(c.clone());
    *nd(c).parent.borrow_mut() = Rc::downgrade(p);
}
fn is_inclusive_ancestor(a: &Rc<Obj>, of: &Rc<Obj>) -> bool {
    let mut c = Some(of.clone());
    while let Some(n) = c {
        if Rc::ptr_eq(&n, a) {
            return true;
        }
        c = parent_of(&n);
    }
    false
}
pub fn insert_before(parent: &Rc<Obj>, node: &Rc<Obj>, child: Option<&Rc<Obj>>) -> Result<(), JsValue> {
    let pk = nd(parent).kind;
    if !matches!(pk, NodeKind::Element | NodeKind::Document | NodeKind::Fragment) {
        return Err(dom_error("HierarchyRequestError", "parent cannot have children"));
    }
    if is_inclusive_ancestor(node, parent) {
        return Err(dom_error("HierarchyRequestError", "the new child contains the parent"));
    }
    if let Some(c) = child {
        if !parent_of(c).is_some_and(|p| Rc::ptr_eq(&p, parent)) {
            return Err(dom_error(
                "NotFoundError",
                "The node before which the new node is to be inserted is not a child of this node",
            ));
        }
    }
    let nk = nd(node).kind;
    if nk == NodeKind::Document || (nk == NodeKind::Text && pk == NodeKind::Document) {
        return Err(dom_error("HierarchyRequestError", "cannot insert this kind of node here"));
    }
    if nk == NodeKind::Element && pk == NodeKind::Document {
        let has_other = children_of(parent)
            .iter()
            .any(|c| nd(c).kind == NodeKind::Element && !Rc::ptr_eq(c, node));
        if has_other {
            return Err(dom_error("HierarchyRequestError", "document already has a root element"));
        }
    }
    let reference = match child {
        Some(c) if Rc::ptr_eq(c, node) => sibling(node, 1),
        o => o.cloned(),
    };
    let nodes = if nk == NodeKind::Fragment { children_of(node) } else { vec![node.clone()] };
    for n in &nodes {
        if parent_of(n).is_some() {
            unlink(n);
        }
    }
    let mut ix = match &reference {
        Some(r) => index_of(parent, r).expect("reference is a child"),
        None => nd(parent).children.borrow().len(),
    };
    if !nodes.is_empty() && !nd(parent).kept.replace(true) {
        keep_parent(parent);
    }
    for n in nodes {
        *nd(&n).parent.borrow_mut() = Rc::downgrade(parent);
        nd(parent).children.borrow_mut().insert(ix, n.clone());
        ix += 1;
        stats(|s| s.inserts += 1);
        html::after_inserted(parent, &n);
    }
    html::after_children_changed(parent);
    Ok(())
}
pub fn remove_child(parent: &Rc<Obj>, child: &Rc<Obj>) -> Result<(), JsValue> {
    if !parent_of(child).is_some_and(|p| Rc::ptr_eq(&p, parent)) {
        return Err(dom_error("NotFoundError", "The node to be removed is not a child of this node"));
    }
    unlink(child);
    Ok(())
}
pub fn text_content(o: &Rc<Obj>) -> String {
    let n = nd(o);
    match n.kind {
        NodeKind::Text | NodeKind::Comment => n.data.borrow().clone(),
        _ => {
            let mut s = String::new();
            for c in children_of(o) {
                if nd(&c).kind != NodeKind::Comment {
                    s.push_str(&text_content(&c));
                }
            }
            s
        }
    }
}
pub fn body() -> Rc<Obj> {
    let html = children_of(&page().document).into_iter().find(|c| nd(c).name == "html").expect("html");
    let b = children_of(&html).into_iter().find(|c| nd(c).name == "body").expect("body");
    b
}
pub fn root_of(o: &Rc<Obj>) -> Rc<Obj> {
    let mut c = o.clone();
    while let Some(p) = parent_of(&c) {
        c = p;
    }
    c
}
/// Elements in tree order below `o` (excluding it).
pub fn descendants(o: &Rc<Obj>, out: &mut Vec<Rc<Obj>>) {
    for c in children_of(o) {
        out.push(c.clone());
        descendants(&c, out);
    }
}
/// Readable dump: `<div>[text"a" <b>[] #c]`
pub fn dump(o: &Rc<Obj>) -> String {
    let n = nd(o);
    match n.kind {
        NodeKind::Text => format!("{:?}", n.data.borrow()),
        NodeKind::Comment => "#".into(),
        _ => {
            let kids: Vec<String> = children_of(o).iter().map(dump).collect();
            format!("<{}{}>[{}]", n.name, n.attrs.borrow().get("id").map(|i| format!(" {i}")).unwrap_or_default(), kids.join(" "))
        }
    }
}
fn to_nodes(args: &[JsValue]) -> Vec<Rc<Obj>> {
    args.iter()
        .map(|a| match a.obj() {
            Some(o) if o.node().is_some() => o.clone(),
            _ => new_char_data(NodeKind::Text, &to_string(a)),
        })
        .collect()
}
fn need_node(v: &JsValue) -> Result<Rc<Obj>, JsValue> {
    match v.obj() {
        Some(o) if o.node().is_some() => Ok(o.clone()),
        _ => Err(dom_error("TypeError", "argument is not a Node")),
    }
}
fn set_text(o: &Rc<Obj>, s: &str) {
    let n = nd(o);
    match n.kind {
        NodeKind::Text | NodeKind::Comment => *n.data.borrow_mut() = s.to_string(),
        _ => {
            for c in children_of(o) {
                unlink(&c);
            }
            if !s.is_empty() {
                let t = new_char_data(NodeKind::Text, s);
                let _ = insert_before(o, &t, None);
            }
        }
    }
}
fn clone_node(o: &Rc<Obj>, deep: bool) -> Rc<Obj> {
    let n = nd(o);
    let c = match n.kind {
        NodeKind::Element => new_element_raw(&n.name),
        NodeKind::Fragment => new_fragment(),
        k => new_char_data(k, &n.data.borrow()),
    };
    *nd(&c).attrs.borrow_mut() = n.attrs.borrow().clone();
    if deep {
        for k in children_of(o) {
            link_last(&c, &clone_node(&k, true));
        }
    }
    c
}

type R = Option<Result<JsValue, JsValue>>;
pub(crate) fn node_op(kind: Kind, name: &str, o: &Rc<Obj>, a: &[JsValue]) -> R {
    let n = nd(o);
    let elem = |v: Vec<Rc<Obj>>| v.into_iter().filter(|c| nd(c).kind == NodeKind::Element).collect::<Vec<_>>();
    let is_char = matches!(n.kind, NodeKind::Text | NodeKind::Comment);
    let obj = |o: Rc<Obj>| JsValue::from_obj(o);
    let r: Result<JsValue, JsValue> = match (kind, name) {
        (Kind::Get, "nodeType") => Ok(JsValue::from(match n.kind {
            NodeKind::Element => 1,
            NodeKind::Text => 3,
            NodeKind::Comment => 8,
            NodeKind::Document => 9,
            NodeKind::Fragment => 11,
        })),
        (Kind::Get, "nodeName" | "tagName") => Ok(if n.kind == NodeKind::Element { n.name.to_ascii_uppercase() } else { n.name.clone() }.into()),
        (Kind::Get, "localName") => Ok(n.name.clone().into()),
        (Kind::Get, "isConnected") => Ok((Rc::ptr_eq(&root_of(o), &page().document)).into()),
        (Kind::Get, "ownerDocument") => Ok(obj(page().document.clone())),
        (Kind::Get, "parentNode") => Ok(opt_obj(parent_of(o))),
        (Kind::Get, "parentElement") => Ok(opt_obj(parent_of(o).filter(|p| nd(p).kind == NodeKind::Element))),
        (Kind::Get, "childNodes") => Ok(JsValue::from_obj(Obj::new("NodeList", Data::Array(RefCell::new(children_of(o).into_iter().map(obj).collect()))))),
        (Kind::Get, "children") => Ok(JsValue::from_obj(Obj::new("HTMLCollection", Data::Array(RefCell::new(elem(children_of(o)).into_iter().map(obj).collect()))))),
        (Kind::Get, "childElementCount") => Ok((elem(children_of(o)).len() as f64).into()),
        (Kind::Get, "firstChild") => Ok(opt_obj(children_of(o).first().cloned())),
        (Kind::Get, "lastChild") => Ok(opt_obj(children_of(o).last().cloned())),
        (Kind::Get, "firstElementChild") => Ok(opt_obj(elem(children_of(o)).first().cloned())),
        (Kind::Get, "lastElementChild") => Ok(opt_obj(elem(children_of(o)).last().cloned())),
        (Kind::Get, "previousSibling") => Ok(opt_obj(sibling(o, -1))),
        (Kind::Get, "nextSibling") => Ok(opt_obj(sibling(o, 1))),
        (Kind::Get, "nextElementSibling" | "previousElementSibling") => {
            let d = if name.starts_with("next") { 1 } else { -1 };
            let mut s = sibling(o, d);
            while let Some(x) = &s {
                if nd(x).kind == NodeKind::Element {
                    break;
                }
                s = sibling(x, d);
            }
            Ok(opt_obj(s))
        }
        (Kind::Call, "hasChildNodes") => Ok((!n.children.borrow().is_empty()).into()),
        (Kind::Get, "nodeValue") => Ok(if is_char { n.data.borrow().clone().into() } else { JsValue::NULL }),
        (Kind::Set, "nodeValue") => {
            if is_char {
                set_text(o, &to_string(&arg(a, 0)));
            }
            Ok(JsValue::UNDEFINED)
        }
        (Kind::Get, "textContent") => Ok(if n.kind == NodeKind::Document { JsValue::NULL } else { text_content(o).into() }),
        (Kind::Set, "textContent" | "innerText") => {
            set_text(o, &to_string(&arg(a, 0)));
            Ok(JsValue::UNDEFINED)
        }
        (Kind::Get, "innerText") => Ok(text_content(o).into()),
        (Kind::Get, "data" | "wholeText") if is_char => Ok(n.data.borrow().clone().into()),
        (Kind::Set, "data") if is_char => {
            set_text(o, &to_string(&arg(a, 0)));
            Ok(JsValue::UNDEFINED)
        }
        (Kind::Get, "length") if is_char => Ok((n.data.borrow().encode_utf16().count() as f64).into()),
        (Kind::Call, "appendData") if is_char => {
            n.data.borrow_mut().push_str(&to_string(&arg(a, 0)));
            Ok(JsValue::UNDEFINED)
        }
        (Kind::Call, "appendChild") => need_node(&arg(a, 0)).and_then(|c| insert_before(o, &c, None).map(|_| obj(c))),
        (Kind::Call, "insertBefore") => need_node(&arg(a, 0)).and_then(|c| {
            let reference = arg(a, 1);
            let r = if reference.is_null_or_undefined() { None } else { Some(need_node(&reference)?) };
            insert_before(o, &c, r.as_ref()).map(|_| obj(c))
        }),
        (Kind::Call, "removeChild") => need_node(&arg(a, 0)).and_then(|c| remove_child(o, &c).map(|_| obj(c))),
        (Kind::Call, "replaceChild") => need_node(&arg(a, 0)).and_then(|c| {
            let old = need_node(&arg(a, 1))?;
            if !parent_of(&old).is_some_and(|p| Rc::ptr_eq(&p, o)) {
                return Err(dom_error("NotFoundError", "The node to be replaced is not a child of this node"));
            }
            if Rc::ptr_eq(&c, &old) {
                return Ok(obj(old));
            }
            insert_before(o, &c, Some(&old))?;
            unlink(&old);
            Ok(obj(old))
        }),
        (Kind::Call, "remove") if n.kind == NodeKind::Element && n.name == "select" && !a.is_empty() => return html::element_op(kind, name, o, a),
        (Kind::Call, "remove") => {
            unlink(o);
            Ok(JsValue::UNDEFINED)
        }
        (Kind::Call, "before" | "after" | "replaceWith") => (|| {
            let Some(p) = parent_of(o) else { return Ok(JsValue::UNDEFINED) };
            let nodes = to_nodes(a);
            let mut next = if name == "before" { Some(o.clone()) } else { sibling(o, 1) };
            while next.as_ref().is_some_and(|x| nodes.iter().any(|m| Rc::ptr_eq(m, x))) {
                next = next.and_then(|x| sibling(&x, 1));
            }
            for m in &nodes {
                insert_before(&p, m, next.as_ref())?;
            }
            if name == "replaceWith" && !nodes.iter().any(|m| Rc::ptr_eq(m, o)) {
                unlink(o);
            }
            Ok(JsValue::UNDEFINED)
        })(),
        (Kind::Call, "append" | "prepend" | "replaceChildren") => (|| {
            let nodes = to_nodes(a);
            if name == "replaceChildren" {
                for c in children_of(o) {
                    unlink(&c);
                }
            }
            let first = if name == "prepend" {
                children_of(o).into_iter().find(|c| !nodes.iter().any(|m| Rc::ptr_eq(m, c)))
            } else {
                None
            };
            for m in &nodes {
                insert_before(o, m, first.as_ref())?;
            }
            Ok(JsValue::UNDEFINED)
        })(),
        (Kind::Call, "cloneNode") => Ok(obj(clone_node(o, arg(a, 0).is_truthy()))),
        (Kind::Call, "contains") => Ok(arg(a, 0).obj().is_some_and(|x| is_inclusive_ancestor(o, x)).into()),
        (Kind::Call, "isSameNode") => Ok(arg(a, 0).obj().is_some_and(|x| Rc::ptr_eq(x, o)).into()),
        (Kind::Call, "getRootNode") => Ok(obj(root_of(o))),
        (Kind::Call, "compareDocumentPosition") => {
            let other = arg(a, 0);
            match other.obj() {
                Some(x) if x.node().is_some() => {
                    let r = if Rc::ptr_eq(x, o) {
                        0
                    } else if !Rc::ptr_eq(&root_of(x), &root_of(o)) {
                        1 + 32 + if x.id < o.id { 2 } else { 4 }
                    } else if is_inclusive_ancestor(x, o) {
                        8 + 2
                    } else if is_inclusive_ancestor(o, x) {
                        16 + 4
                    } else {
                        let mut all = vec![];
                        descendants(&root_of(o), &mut all);
                        let px = all.iter().position(|m| Rc::ptr_eq(m, x));
                        let po = all.iter().position(|m| Rc::ptr_eq(m, o));
                        if px < po { 2 } else { 4 }
                    };
                    Ok(r.into())
                }
                _ => Err(dom_error("TypeError", "argument is not a Node")),
            }
        }
        (Kind::Call, "normalize") => Ok(JsValue::UNDEFINED),
        _ => {
            return match n.kind {
                NodeKind::Document => document_op(kind, name, a),
                NodeKind::Element => html::element_op(kind, name, o, a),
                _ => None,
            }
        }
    };
    Some(r)
}
fn document_op(kind: Kind, name: &str, a: &[JsValue]) -> R {
    let doc = page().document.clone();
    let obj = |o: Rc<Obj>| JsValue::from_obj(o);
    Some(Ok(match (kind, name) {
        (Kind::Get, "body") => obj(body()),
        (Kind::Get, "documentElement") => obj(children_of(&doc)[0].clone()),
        (Kind::Get, "head") => {
            let html = children_of(&doc)[0].clone();
            opt_obj(children_of(&html).into_iter().find(|c| nd(c).name == "head"))
        }
        (Kind::Get, "defaultView") => obj(page().window.clone()),
        (Kind::Call, "createElement") => {
            let t = to_string(&arg(a, 0));
            let ok = t.chars().next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_' || c == ':')
                && !t.contains(|c: char| c.is_whitespace() || c == '<' || c == '>' || c == '/');
            if !ok {
                return Some(Err(dom_error("InvalidCharacterError", "bad element name")));
            }
            obj(new_element_raw(&t))
        }
        (Kind::Call, "createTextNode") => obj(new_char_data(NodeKind::Text, &to_string(&arg(a, 0)))),
        (Kind::Call, "createComment") => obj(new_char_data(NodeKind::Comment, &to_string(&arg(a, 0)))),
        (Kind::Call, "createDocumentFragment") => obj(new_fragment()),
        (Kind::Call, "getElementById") => {
            let id = to_string(&arg(a, 0));
            let mut all = vec![];
            descendants(&doc, &mut all);
            opt_obj(all.into_iter().find(|x| nd(x).attrs.borrow().get("id") == Some(&id)))
        }
        _ => return None,
    }))
}
