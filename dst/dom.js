// A small document: just enough of the browser for the page's own scripts, without layout, rendering or network.
"use strict";

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style", "textarea", "title"]);

function decode(text) {
  return text
    .replace(/&nbsp;/g, "\u00a0")
    .replace(/&#(\d+);/g, (_, n) => String.fromCodePoint(Number(n)))
    .replace(/&lt;/g, "<")
    .replace(/&gt;/g, ">")
    .replace(/&quot;/g, '"')
    .replace(/&amp;/g, "&");
}

// parse HTML into a list of [tag, attributes, children | text]
function parse(html) {
  const root = { tag: "#root", attrs: {}, kids: [] };
  const stack = [root];
  let pos = 0;
  const top = () => stack[stack.length - 1];
  const text = (s) => {
    if (s) top().kids.push(decode(s));
  };
  while (pos < html.length) {
    const lt = html.indexOf("<", pos);
    if (lt < 0) {
      text(html.slice(pos));
      break;
    }
    text(html.slice(pos, lt));
    if (html.startsWith("<!--", lt)) {
      const end = html.indexOf("-->", lt);
      pos = end < 0 ? html.length : end + 3;
      continue;
    }
    const m = /^<(\/?)([A-Za-z!][^\s/>]*)((?:[^>"']|"[^"]*"|'[^']*')*)>/.exec(html.slice(lt, lt + 5000));
    if (!m) {
      text("<");
      pos = lt + 1;
      continue;
    }
    pos = lt + m[0].length;
    const tag = m[2].toLowerCase();
    if (tag.startsWith("!")) continue;
    if (m[1]) {
      for (let i = stack.length - 1; i > 0; i--) {
        if (stack[i].tag === tag) {
          stack.length = i;
          break;
        }
      }
      continue;
    }
    const attrs = {};
    for (const a of m[3].matchAll(/([^\s=/"'>]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>]+))?/g)) {
      let value = a[2] === undefined ? "" : a[2];
      if (/^["']/.test(value)) value = value.slice(1, -1);
      attrs[a[1].toLowerCase()] = decode(value);
    }
    if (tag === "option" && top().tag === "option") stack.pop();
    if (tag === "li" && top().tag === "li") stack.pop();
    const node = { tag, attrs, kids: [] };
    top().kids.push(node);
    if (RAW.has(tag)) {
      const end = html.toLowerCase().indexOf(`</${tag}`, pos);
      const stop = end < 0 ? html.length : end;
      if (stop > pos) node.kids.push(tag === "textarea" ? decode(html.slice(pos, stop)) : html.slice(pos, stop));
      const gt = html.indexOf(">", stop);
      pos = gt < 0 ? html.length : gt + 1;
    } else if (!VOID.has(tag) && !m[3].endsWith("/")) {
      stack.push(node);
    }
  }
  return root.kids;
}

class Target {
  constructor() {
    this._listeners = {};
  }
  addEventListener(type, fn, options) {
    if (!fn) return;
    const list = (this._listeners[type] ||= []);
    if (!list.some((x) => x.fn === fn)) list.push({ fn, once: !!(options && options.once) });
  }
  removeEventListener(type, fn) {
    this._listeners[type] = (this._listeners[type] || []).filter((x) => x.fn !== fn);
  }
  _fire(event) {
    event.currentTarget = this;
    for (const item of [...(this._listeners[event.type] || [])]) {
      if (item.once) this.removeEventListener(event.type, item.fn);
      try {
        if (typeof item.fn === "function") item.fn.call(this, event);
        else item.fn.handleEvent(event);
      } catch (err) {
        Target.onError(err);
      }
    }
    const handler = this["on" + event.type];
    if (typeof handler === "function") {
      try {
        handler.call(this, event);
      } catch (err) {
        Target.onError(err);
      }
    }
  }
}
Target.onError = () => {};

class Event {
  constructor(type, init = {}) {
    this.type = type;
    this.bubbles = !!init.bubbles;
    this.cancelable = !!init.cancelable;
    this.detail = init.detail;
    this.defaultPrevented = false;
    this.target = null;
  }
  preventDefault() {
    this.defaultPrevented = true;
  }
  stopPropagation() {
    this._stopped = true;
  }
  stopImmediatePropagation() {
    this._stopped = true;
  }
}

class Text {
  constructor(data) {
    this.data = data;
    this.nodeType = 3;
    this.parentNode = null;
  }
  get textContent() {
    return this.data;
  }
  remove() {
    if (this.parentNode) this.parentNode.removeChild(this);
  }
}

function matches(el, selector) {
  return selector.split(",").some((one) => {
    const parts = one.trim().split(/\s*>\s*|\s+/);
    let at = el;
    if (!simple(at, parts[parts.length - 1])) return false;
    for (let i = parts.length - 2; i >= 0; i--) {
      at = at.parentNode;
      while (at && at.tagName && !simple(at, parts[i])) at = at.parentNode;
      if (!at || !at.tagName) return false;
    }
    return true;
  });
}

function simple(el, sel) {
  if (!el.tagName) return false;
  const m = /^([A-Za-z*][\w-]*)?/.exec(sel);
  if (m[1] && m[1] !== "*" && el.tagName.toLowerCase() !== m[1].toLowerCase()) return false;
  for (const part of sel.slice(m[0].length).matchAll(/([#.])([\w-]+)|\[([\w-]+)(?:([~|^$*]?=)["']?([^"'\]]*)["']?)?\]|:([\w-]+)/g)) {
    if (part[1] === "#" && el.id !== part[2]) return false;
    if (part[1] === "." && !el.className.split(/\s+/).includes(part[2])) return false;
    if (part[3]) {
      const value = el.getAttribute(part[3]);
      if (value === null) return false;
      if (part[4] === "=" && value !== part[5]) return false;
      if (part[4] === "^=" && !value.startsWith(part[5])) return false;
      if (part[4] === "$=" && !value.endsWith(part[5])) return false;
      if (part[4] === "*=" && !value.includes(part[5])) return false;
    }
    if (part[6] === "disabled" && !el.disabled) return false;
    if (part[6] === "checked" && !(el.checked || el.selected)) return false;
  }
  return true;
}

class Element extends Target {
  constructor(doc, tag) {
    super();
    this.nodeType = 1;
    this.ownerDocument = doc;
    this.tagName = this.nodeName = tag.toUpperCase();
    this.childNodes = [];
    this.parentNode = null;
    this._attrs = {};
    this.style = { setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; }, getPropertyValue(k) { return this[k] || ""; } };
    this.dataset = {};
    this._value = "";
    this._checked = false;
    this._disabled = false;
    const el = this;
    this.classList = {
      get list() { return el.className.split(/\s+/).filter(Boolean); },
      add(...names) { el.className = [...new Set([...this.list, ...names])].join(" "); },
      remove(...names) { el.className = this.list.filter((x) => !names.includes(x)).join(" "); },
      contains(name) { return this.list.includes(name); },
      toggle(name, force) {
        const on = force === undefined ? !this.contains(name) : !!force;
        if (on) this.add(name);
        else this.remove(name);
        return on;
      },
    };
  }
  // attributes
  getAttribute(k) { return k in this._attrs ? this._attrs[k] : null; }
  hasAttribute(k) { return k in this._attrs; }
  setAttribute(k, v) {
    k = k.toLowerCase();
    this._attrs[k] = String(v);
    if (k === "disabled") this._disabled = true;
    if (k === "checked") this._checked = true;
    if (k === "value" && this.tagName !== "TEXTAREA") this.value = v;
    if (k === "style") {
      for (const item of String(v).split(";")) {
        const at = item.indexOf(":");
        if (at > 0) this.style[item.slice(0, at).trim().replace(/-(\w)/g, (_, c) => c.toUpperCase())] = item.slice(at + 1).trim();
      }
    }
    if (k.startsWith("data-")) this.dataset[k.slice(5).replace(/-(\w)/g, (_, c) => c.toUpperCase())] = String(v);
    if (k.startsWith("on")) {
      const code = String(v);
      this[k] = () => this.ownerDocument._run(code);
    }
  }
  removeAttribute(k) {
    delete this._attrs[k];
    if (k === "disabled") this._disabled = false;
    if (k === "checked") this._checked = false;
  }
  toggleAttribute(k, force) {
    const on = force === undefined ? !this.hasAttribute(k) : !!force;
    if (on) this.setAttribute(k, "");
    else this.removeAttribute(k);
    return on;
  }
  get id() { return this._attrs.id || ""; }
  set id(v) { this._attrs.id = String(v); }
  get className() { return this._attrs.class || ""; }
  set className(v) { this._attrs.class = String(v); }
  get name() { return this._attrs.name || ""; }
  set name(v) { this._attrs.name = String(v); }
  get type() { return this.tagName === "SELECT" ? "select-one" : this._attrs.type || (this.tagName === "INPUT" ? "text" : this.tagName === "BUTTON" ? "submit" : ""); }
  set type(v) { this._attrs.type = String(v); }
  get disabled() { return this._disabled; }
  set disabled(v) { this._disabled = !!v; if (v) this._attrs.disabled = ""; else delete this._attrs.disabled; }
  get checked() { return this._checked; }
  set checked(v) { this._checked = !!v; }
  get hidden() { return "hidden" in this._attrs; }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get defaultValue() { return this._attrs.value || ""; }
  // values
  get options() { return this._all().filter((x) => x.tagName === "OPTION"); }
  get selectedOptions() { return this.selectedIndex < 0 ? [] : [this.options[this.selectedIndex]]; }
  get selectedIndex() {
    const list = this.options;
    const at = list.findIndex((x) => x._selected);
    if (at >= 0) return at;
    return this._none ? -1 : list.findIndex((x) => !x._disabled);
  }
  set selectedIndex(n) {
    this.options.forEach((x, i) => { x._selected = i === Number(n); });
    this._none = !(n >= 0);
  }
  get selected() { return this._selected === true; }
  set selected(v) {
    const select = this._select();
    if (v && select) select.options.forEach((x) => { x._selected = false; });
    this._selected = !!v;
  }
  get text() { return this.textContent.trim(); }
  set text(v) { this.textContent = v; }
  get label() { return this._attrs.label === undefined ? this.text : this._attrs.label; }
  set label(v) { this._attrs.label = String(v); }
  _select() {
    let at = this.parentNode;
    while (at && at.tagName !== "SELECT") at = at.parentNode;
    return at;
  }
  get value() {
    if (this.tagName === "SELECT") {
      const at = this.selectedIndex;
      return at < 0 ? "" : this.options[at].value;
    }
    if (this.tagName === "OPTION") return this._own === undefined ? this.text : this._own;
    if (this.tagName === "INPUT" && (this.type === "checkbox" || this.type === "radio")) return this._own === undefined ? "on" : this._own;
    return this._value;
  }
  set value(v) {
    v = v === null && this.tagName !== "OPTION" ? "" : String(v);
    if (this.tagName === "SELECT") {
      const list = this.options;
      const at = list.findIndex((x) => x.value === v);
      list.forEach((x, i) => { x._selected = i === at; });
      this._none = at < 0;
    } else if (this.tagName === "OPTION" || (this.tagName === "INPUT" && (this.type === "checkbox" || this.type === "radio"))) this._own = v;
    else if (this.tagName === "INPUT" && this.type === "number") this._value = /^-?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$/i.test(v) ? v : "";
    else this._value = v;
  }
  get valueAsNumber() { return this.value === "" ? NaN : Number(this.value); }
  // tree
  get children() { return this.childNodes.filter((x) => x.nodeType === 1); }
  get childElementCount() { return this.children.length; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  get parentElement() { return this.parentNode && this.parentNode.tagName ? this.parentNode : null; }
  get nextSibling() { const l = this.parentNode ? this.parentNode.childNodes : []; return l[l.indexOf(this) + 1] || null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(el) { return el === this || this._all().includes(el); }
  _adopt(node, at) {
    if (node instanceof Fragment) {
      [...node.childNodes].forEach((x, i) => this._adopt(x, at === undefined ? undefined : at + i));
      return node;
    }
    if (typeof node === "string") node = new Text(node);
    if (node.parentNode) node.parentNode.removeChild(node);
    node.parentNode = this;
    if (at === undefined) this.childNodes.push(node);
    else this.childNodes.splice(at, 0, node);
    if (this.ownerDocument && this.ownerDocument._added) this.ownerDocument._added(node);
    return node;
  }
  appendChild(node) { return this._adopt(node); }
  append(...nodes) { nodes.forEach((x) => this._adopt(x)); }
  prepend(...nodes) { nodes.forEach((x, i) => this._adopt(x, i)); }
  insertBefore(node, ref) { return this._adopt(node, ref ? this.childNodes.indexOf(ref) : undefined); }
  insertAdjacentElement(where, node) { return where === "beforeend" ? this._adopt(node) : this._adopt(node, 0); }
  removeChild(node) {
    const at = this.childNodes.indexOf(node);
    if (at < 0) throw new Error("NotFoundError");
    this.childNodes.splice(at, 1);
    node.parentNode = null;
    return node;
  }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  replaceChildren(...nodes) {
    [...this.childNodes].forEach((x) => this.removeChild(x));
    this.append(...nodes);
  }
  replaceChild(fresh, old) {
    this.insertBefore(fresh, old);
    return this.removeChild(old);
  }
  get textContent() { return this.childNodes.map((x) => x.textContent).join(""); }
  set textContent(v) { this.replaceChildren(...(v === "" || v === null ? [] : [String(v)])); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this._html === undefined ? this.textContent : this._html; }
  set innerHTML(v) {
    this.replaceChildren();
    grow(this, parse(String(v)));
  }
  insertAdjacentHTML(_, v) { grow(this, parse(String(v))); }
  _all(out = []) {
    for (const kid of this.childNodes) {
      if (kid.nodeType === 1) {
        out.push(kid);
        kid._all(out);
      }
    }
    return out;
  }
  matches(sel) { return matches(this, sel); }
  closest(sel) {
    let at = this;
    while (at && at.tagName) {
      if (matches(at, sel)) return at;
      at = at.parentNode;
    }
    return null;
  }
  querySelector(sel) { return this._all().find((x) => matches(x, sel)) || null; }
  querySelectorAll(sel) { return this._all().filter((x) => matches(x, sel)); }
  getElementsByTagName(tag) { return this._all().filter((x) => tag === "*" || x.tagName === tag.toUpperCase()); }
  getElementsByClassName(name) { return this._all().filter((x) => x.className.split(/\s+/).includes(name)); }
  // events
  dispatchEvent(event) {
    event.target = this;
    this._fire(event);
    if (event.bubbles) {
      let at = this.parentNode;
      while (at && !event._stopped) {
        at._fire(event);
        at = at.parentNode;
      }
      if (!event._stopped && this.ownerDocument && this.ownerDocument.defaultView) this.ownerDocument.defaultView._fire(event);
    }
    return !event.defaultPrevented;
  }
  click() {
    if (this.disabled) return;
    if (this.tagName === "INPUT" && this.type === "checkbox") this.checked = !this.checked;
    this.dispatchEvent(new Event("click", { bubbles: true }));
  }
  focus() {}
  blur() {}
  scrollIntoView() {}
  getBoundingClientRect() { return { left: 0, top: 0, width: 0, height: 0, right: 0, bottom: 0 }; }
}

class Fragment extends Element {
  constructor(doc) {
    super(doc, "#fragment");
  }
}

function grow(parent, kids) {
  for (const kid of kids) {
    if (typeof kid === "string") {
      parent.append(kid);
      continue;
    }
    const el = new Element(parent.ownerDocument, kid.tag);
    for (const [k, v] of Object.entries(kid.attrs)) el.setAttribute(k, v);
    if (kid.tag === "option") {
      if ("value" in kid.attrs) el._own = kid.attrs.value;
      if ("selected" in kid.attrs) el._selected = true;
    }
    parent.appendChild(el);
    grow(el, kid.kids);
    if (kid.tag === "textarea") el._value = el.textContent;
  }
}

class Document extends Target {
  constructor(tree) {
    super();
    this.nodeType = 9;
    this.childNodes = [];
    this.currentScript = null;
    this.readyState = "loading";
    this.root = new Element(this, "#document");
    this.root.tagName = "";
    this.root.parentNode = null;
    grow(this.root, tree);
    this.documentElement = this.root.querySelector("html") || this.root;
    this.head = this.root.querySelector("head") || this.documentElement;
    this.body = this.root.querySelector("body") || this.documentElement;
    this.documentElement.parentNode = this;
    this.index = new Map();
    for (const el of this.root._all()) if (el.id && !this.index.has(el.id)) this.index.set(el.id, el);
  }
  createElement(tag) { return new Element(this, tag); }
  createTextNode(text) { return new Text(String(text)); }
  createDocumentFragment() { return new Fragment(this); }
  createEvent() { return { initEvent(type, bubbles) { Object.assign(this, new Event(type, { bubbles })); }, preventDefault() {} }; }
  _attached(el) {
    let at = el;
    while (at && at !== this && at !== this.root) at = at.parentNode;
    return !!at;
  }
  getElementById(id) {
    const hit = this.index.get(String(id));
    if (hit && hit.id === String(id) && this._attached(hit)) return hit;
    return this.root._all().find((x) => x.id === String(id)) || null;
  }
  querySelector(sel) { return this.root.querySelector(sel); }
  querySelectorAll(sel) { return this.root.querySelectorAll(sel); }
  getElementsByTagName(tag) { return this.root.getElementsByTagName(tag); }
  getElementsByClassName(name) { return this.root.getElementsByClassName(name); }
  dispatchEvent(event) {
    event.target = this;
    this._fire(event);
    return true;
  }
}

module.exports = { parse, Document, Element, Event, Target };
