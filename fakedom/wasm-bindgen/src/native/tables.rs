//! Class names and inheritance.
fn parent(class: &str) -> Option<&'static str> {
    Some(match class {
        "Object" => return None,
        "EventTarget" | "Event" | "DOMTokenList" | "CSSStyleDeclaration" | "DOMRectReadOnly" | "NodeList"
        | "HTMLCollection" | "Array" | "Function" | "DOMException" | "IntersectionObserver"
        | "IntersectionObserverEntry" | "Promise" | "DOMStringMap" => "Object",
        "Node" | "Window" => "EventTarget",
        "DOMRect" => "DOMRectReadOnly",
        "Document" | "DocumentFragment" | "Element" | "CharacterData" | "Attr" => "Node",
        "HTMLDocument" => "Document",
        "ShadowRoot" => "DocumentFragment",
        "Text" | "Comment" => "CharacterData",
        "HTMLElement" | "SVGElement" => "Element",
        "HTMLAudioElement" | "HTMLVideoElement" => "HTMLMediaElement",
        "UIEvent" | "InputEventBase" | "CustomEvent" | "ClipboardEvent" => "Event",
        "MouseEvent" | "KeyboardEvent" | "FocusEvent" | "InputEvent" | "CompositionEvent" | "TouchEvent" => "UIEvent",
        "WheelEvent" | "DragEvent" | "PointerEvent" => "MouseEvent",
        "HTMLOptionsCollection" => "HTMLCollection",
        c if c.starts_with("HTML") && c.ends_with("Element") => "HTMLElement",
        c if c.ends_with("Event") => "Event",
        _ => "Object",
    })
}
pub fn instance_of_class(class: &str, of: &str) -> bool {
    let mut c = Some(class.to_string());
    while let Some(n) = c {
        if n == of {
            return true;
        }
        c = parent(&n).map(str::to_string);
    }
    false
}
/// HTML Standard element interfaces.
pub fn class_for_tag(tag: &str) -> &'static str {
    match tag {
        "a" => "HTMLAnchorElement",
        "area" => "HTMLAreaElement",
        "audio" => "HTMLAudioElement",
        "base" => "HTMLBaseElement",
        "blockquote" | "q" => "HTMLQuoteElement",
        "body" => "HTMLBodyElement",
        "br" => "HTMLBRElement",
        "button" => "HTMLButtonElement",
        "canvas" => "HTMLCanvasElement",
        "caption" => "HTMLTableCaptionElement",
        "col" | "colgroup" => "HTMLTableColElement",
        "data" => "HTMLDataElement",
        "datalist" => "HTMLDataListElement",
        "del" | "ins" => "HTMLModElement",
        "details" => "HTMLDetailsElement",
        "dialog" => "HTMLDialogElement",
        "dir" => "HTMLDirectoryElement",
        "div" => "HTMLDivElement",
        "dl" => "HTMLDListElement",
        "embed" => "HTMLEmbedElement",
        "fieldset" => "HTMLFieldSetElement",
        "font" => "HTMLFontElement",
        "form" => "HTMLFormElement",
        "frame" => "HTMLFrameElement",
        "frameset" => "HTMLFrameSetElement",
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => "HTMLHeadingElement",
        "head" => "HTMLHeadElement",
        "hr" => "HTMLHRElement",
        "html" => "HTMLHtmlElement",
        "iframe" => "HTMLIFrameElement",
        "img" => "HTMLImageElement",
        "input" => "HTMLInputElement",
        "label" => "HTMLLabelElement",
        "legend" => "HTMLLegendElement",
        "li" => "HTMLLIElement",
        "link" => "HTMLLinkElement",
        "map" => "HTMLMapElement",
        "menu" => "HTMLMenuElement",
        "meta" => "HTMLMetaElement",
        "meter" => "HTMLMeterElement",
        "object" => "HTMLObjectElement",
        "ol" => "HTMLOListElement",
        "optgroup" => "HTMLOptGroupElement",
        "option" => "HTMLOptionElement",
        "output" => "HTMLOutputElement",
        "p" => "HTMLParagraphElement",
        "param" => "HTMLParamElement",
        "picture" => "HTMLPictureElement",
        "pre" | "listing" | "xmp" => "HTMLPreElement",
        "progress" => "HTMLProgressElement",
        "script" => "HTMLScriptElement",
        "select" => "HTMLSelectElement",
        "slot" => "HTMLSlotElement",
        "source" => "HTMLSourceElement",
        "span" => "HTMLSpanElement",
        "style" => "HTMLStyleElement",
        "table" => "HTMLTableElement",
        "tbody" | "thead" | "tfoot" => "HTMLTableSectionElement",
        "td" | "th" => "HTMLTableCellElement",
        "template" => "HTMLTemplateElement",
        "textarea" => "HTMLTextAreaElement",
        "time" => "HTMLTimeElement",
        "title" => "HTMLTitleElement",
        "tr" => "HTMLTableRowElement",
        "track" => "HTMLTrackElement",
        "ul" => "HTMLUListElement",
        "video" => "HTMLVideoElement",
        "abbr" | "address" | "article" | "aside" | "b" | "bdi" | "bdo" | "cite" | "code" | "dd" | "dfn" | "dt"
        | "em" | "figcaption" | "figure" | "footer" | "header" | "hgroup" | "i" | "kbd" | "main" | "mark" | "nav"
        | "noscript" | "rp" | "rt" | "ruby" | "s" | "samp" | "search" | "section" | "small" | "strong" | "sub"
        | "summary" | "sup" | "u" | "var" | "wbr" | "acronym" | "basefont" | "big" | "center" | "nobr"
        | "noembed" | "noframes" | "plaintext" | "rb" | "rtc" | "strike" | "tt" => "HTMLElement",
        _ => "HTMLUnknownElement",
    }
}
