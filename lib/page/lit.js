// What the page uses of lit: reactive properties, templates, rendering.  A template becomes a tree of elements; what
// the page shows is what was rendered last, and nothing is rendered but by update() or after a reactive property changed.
export const nothing = Symbol("nothing"), noChange = nothing;
export const notEqual = (a, b) => !Object.is(a, b);
class Template {
  constructor(strings, values) { this.strings = strings; this.values = values; }
}
export const html = (strings, ...values) => new Template(strings, values);
export const svg = html;
export const css = (strings, ...values) => ({ cssText: strings.reduce((a, s, i) => a + (values[i - 1]?.cssText ?? values[i - 1]) + s) });
export const unsafeCSS = (text) => ({ cssText: String(text) });

const VOID = new Set(["input", "br", "img", "hr", "meta", "link"]);

export class El {
  constructor(tag, host) {
    this.tag = tag; this.host = host; this.attrs = {}; this.props = {}; this.handlers = {}; this.children = []; this.parent = null;
  }
  get tagName() { return this.tag; }
  get localName() { return this.tag; }
  get id() { return this.attrs.id ?? ""; }
  get className() { return { baseVal: this.attrs.class ?? "" }; }
  get parentElement() { return this.parent; }
  get parentNode() { return this.parent; }
  get classes() { return (this.attrs.class ?? "").split(/\s+/).filter((x) => x); }
  get classList() { return { contains: (x) => this.classes.includes(x) }; }
  get dataset() {
    return Object.fromEntries(Object.entries(this.attrs).filter(([k]) => k.startsWith("data-"))
      .map(([k, v]) => [k.slice(5).replace(/-(.)/g, (_, c) => c.toUpperCase()), v]));
  }
  getAttribute(k) { return this.attrs[k] ?? null; }
  hasAttribute(k) { return k in this.attrs; }
  matches(sel) {
    return sel.split(",").some((s) => {
      const m = s.trim().match(/^([\w-]*)((?:[.#][\w-]+)*)$/);
      return m && (!m[1] || m[1] === this.tag) &&
        (m[2].match(/[.#][\w-]+/g) ?? []).every((p) => p[0] === "." ? this.classes.includes(p.slice(1)) : this.id === p.slice(1));
    });
  }
  closest(sel) { for (let e = this; e; e = e.parent) if (e.matches(sel)) return e; return null; }
  get elements() { return this.children.filter((c) => c instanceof El); }
  *all() { yield this; for (const c of this.elements) yield* c.all(); }
  querySelectorAll(sel) { return [...this.all()].filter((e) => e !== this && e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
  get textContent() { return this.children.map((c) => (c instanceof El ? c.textContent : c)).join(""); }
  getElementById(id) { return this.querySelectorAll("#" + id)[0] ?? null; }
  get firstElementChild() { return this.elements[0] ?? null; }
  get ownerSVGElement() { return this.closest("svg"); }
  createSVGPoint() { return new DOMPoint(0, 0); }
  getScreenCTM() { return new DOMMatrix(globalThis.__ctm); }
}
globalThis.__El = El;

const MARK = "\u0001";
function build(value, host) {
  if (value === null || value === undefined || value === nothing || value === "") return [];
  if (Array.isArray(value)) return value.flatMap((v) => build(v, host));
  if (!(value instanceof Template)) {
    if (typeof value === "object" && typeof value[Symbol.iterator] === "function") return [...value].flatMap((v) => build(v, host));
    return [String(value)];
  }
  const { strings, values } = value;
  const src = strings.reduce((a, s, i) => a + MARK + (i - 1) + MARK + s);
  const root = new El("#root", host);
  let at = root;
  const re = /<!--[\s\S]*?-->|<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[^\s=>"'\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']*))?)*)\s*(\/?)>|[^<]+|</g;
  for (const m of src.matchAll(re)) {
    if (m[0].startsWith("<!--")) continue;
    if (m[1]) {
      for (let e = at; e !== root; e = e.parent) if (e.tag === m[1].toLowerCase()) { at = e.parent; break; }
    } else if (m[2]) {
      const e = new El(m[2].toLowerCase(), host);
      e.parent = at;
      at.children.push(e);
      for (const a of m[3].matchAll(/\s+([^\s=>"'\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']*)))?/g)) {
        const raw = a[2] ?? a[3] ?? a[4] ?? "";
        const only = raw.match(/^\u0001(\d+)\u0001$/);
        const name = a[1];
        if (name[0] === "@") { if (only) e.handlers[name.slice(1)] = values[only[1]]; }
        else if (name[0] === ".") e.props[name.slice(1)] = only ? values[only[1]] : raw;
        else if (name[0] === "?") { if (only && values[only[1]]) e.attrs[name.slice(1)] = ""; }
        else {
          if (only && values[only[1]] === nothing) continue;
          e.attrs[name] = raw.replace(/\u0001(\d+)\u0001/g, (_, i) => String(values[i] ?? ""));
        }
      }
      if (!m[4] && !VOID.has(e.tag)) at = e;
    } else {
      m[0].split(MARK).forEach((t, i) => {
        if (i % 2 === 0) { if (t) at.children.push(t); }
        else for (const c of build(values[t], host)) {
          if (c instanceof El) c.parent = at;
          at.children.push(c);
        }
      });
    }
  }
  return root.children.map((c) => { if (c instanceof El) c.parent = null; return c; });
}

export class LitElement extends HTMLElement {
  static finalize() {
    const own = this.properties ?? {};
    for (const name of Object.keys(own)) {
      const key = Symbol(name);
      const changed = own[name]?.hasChanged ?? ((a, b) => !Object.is(a, b));
      Object.defineProperty(this.prototype, name, {
        configurable: true, enumerable: true,
        get() { return this[key]; },
        set(v) { const old = this[key]; this[key] = v; if (changed(v, old)) this.requestUpdate(name, old); },
      });
    }
  }
  constructor() {
    super();
    this.__pending = false; this.isConnected = false; this.hasUpdated = false;
    this.renderRoot = new El("#shadow", this);
    this.shadowRoot = this.renderRoot;
    // The children of the root are elements, as in a browser.
    this.__nodes = [];
    Object.defineProperty(this.renderRoot, "children", { get: () => this.__nodes.filter((c) => c instanceof El) });
  }
  connectedCallback() { this.isConnected = true; this.requestUpdate(); }
  disconnectedCallback() { this.isConnected = false; }
  requestUpdate() {
    if (this.__pending) return;
    this.__pending = true;
    this.updateComplete = Promise.resolve().then(() => {
      if (!this.__pending || !this.isConnected) return;
      this.performUpdate();
    });
  }
  performUpdate() {
    this.__pending = false;
    const changed = new globalThis.Map();
    if (this.shouldUpdate && !this.shouldUpdate(changed)) return;
    this.willUpdate?.(changed);
    this.update(changed);
    if (!this.hasUpdated) { this.hasUpdated = true; this.firstUpdated?.(changed); }
    this.updated?.(changed);
  }
  update() {
    this.__pending = false;
    const nodes = build(this.render(), this);
    this.__nodes = nodes;
    for (const n of nodes) if (n instanceof El) n.parent = null;
    this.__committed?.();
  }
  render() { return nothing; }
}
export { LitElement as ReactiveElement };
