// A page without a browser: loads static/ of the current directory; templates stay text.
"use strict";
const vm = require("vm"), fs = require("fs");
const LIT = `
export const html = (s, ...v) => ({ s, v }), svg = html, css = () => "", unsafeCSS = (x) => x;
const flat = (x) => x == null ? "" : Array.isArray(x) ? x.map(flat).join("") : x.s ? x.s.map((t, i) => t + (i < x.v.length ? flat(x.v[i]) : "")).join("")
  : typeof x === "function" ? "" : String(x);
export class LitElement extends HTMLElement {
  connectedCallback() { this.requestUpdate(); }
  disconnectedCallback() {}
  requestUpdate() { Promise.resolve().then(() => this.update()); }
  update() { this.text = flat(this.render()).replace(/<[^>]*>/g, " ").replace(/\\s+/g, " "); this.drawn = flat(this.render()); }
}`;
exports.settle = async () => { for (let i = 0; i < 5; i++) await new Promise((r) => setImmediate(r)); };
exports.load = async (devices) => {
  const page = { posts: [] };
  const ctx = vm.createContext({ page, setTimeout, console: { log() {} }, devices });
  vm.runInContext(`
    class Event { constructor(t, i) { this.type = t; Object.assign(this, i); } composedPath() { return this.path ?? []; } preventDefault() {} }
    class CustomEvent extends Event {}
    class HTMLElement {
      constructor() { this.l = {}; }
      addEventListener(t, f) { (this.l[t] ??= []).push(f); }
      removeEventListener() {}
      dispatchEvent(e) { for (const f of this.l[e.type] ?? []) f.call(this, e); }
    }
    const top = new HTMLElement(), parts = {};
    globalThis.HTMLElement = HTMLElement; globalThis.CustomEvent = CustomEvent; globalThis.Event = Event;
    globalThis.window = globalThis;
    globalThis.addEventListener = (t, f) => top.addEventListener(t, f);
    globalThis.dispatchEvent = (e) => top.dispatchEvent(e);
    globalThis.customElements = { define(n, c) {
      for (const k of Object.keys(c.properties ?? {})) { const s = Symbol(k); Object.defineProperty(c.prototype, k, {
        get() { return this[s]; }, set(v) { this[s] = v; this.requestUpdate(); } }); }
      if (n === "pika-map") parts.map = new c();
      if (n === "pika-device-info") parts.info = new c();
      parts.map?.connectedCallback(); parts.info?.connectedCallback();
    } };
    globalThis.document = { getElementById: (i) => parts[i], querySelector: (i) => parts[i.replace("#", "")] };
    globalThis.DOMMatrix = class { rotateAxisAngleSelf() {} scaleSelf() {} inverse() { return this; } };
    globalThis.EventSource = class extends HTMLElement { constructor() { super(); page.events = this; } };
    globalThis.fetch = async (p, o) => { if (o?.method === "POST") page.posts.push([p, JSON.parse(o.body)]); return { ok: true, json: async () => ({ devices }) }; };
    Object.assign(page, { parts, Event, CustomEvent });
  `, ctx);
  const mods = {};
  const get = (u) => mods[u] ??= new vm.SourceTextModule(u === "lit" ? LIT : fs.readFileSync("static" + u, "utf8"), { context: ctx, identifier: u });
  const link = (s, ref) => get(s === "lit" ? s : new URL(s, "http://x" + (ref.identifier[0] === "/" ? ref.identifier : "/")).pathname);
  const text = fs.readFileSync("static/index.html", "utf8").match(/<script type="module">([\s\S]*?)<\/script>/)[1];
  const main = new vm.SourceTextModule(text, { context: ctx, identifier: "/index.html" });
  await main.link(link);
  await main.evaluate();
  page.tell = async (name, data) => { page.events.dispatchEvent(new page.Event(name, { data: JSON.stringify(data) })); await exports.settle(); };
  page.events.dispatchEvent(new page.Event("open"));
  ctx.dispatchEvent(new page.Event("load"));
  await exports.settle();
  const { map, info } = page.parts;
  map.screenToSvg = (x, y) => ({ x, y });
  const marker = (i) => ({ tag: "g", classList: { contains: (c) => c === "marker" }, getAttribute: () => String(i) });
  const handle = { classList: { contains: (c) => c === "handle" } };
  page.press = async (i) => { const m = marker(i); map.onMouseDown(new page.Event("mousedown", { target: { classList: { contains: () => false } }, path: [m] })); await exports.settle(); };
  page.grip = async () => { map.onMouseDown(new page.Event("mousedown", { target: handle, path: [handle, marker(0)] })); await exports.settle(); };
  page.move = async (x, y, movementY = 0) => { map.onMouseMove(new page.Event("mousemove", { clientX: x, clientY: y, movementX: 0, movementY })); await exports.settle(); };
  page.release = async () => { ctx.dispatchEvent(new page.Event("mouseup")); await exports.settle(); };
  page.panel = () => info.text;
  return page;
};
exports.thing = (mac_address, x = 0, y = 0, z = 0) => ({ category: "Anchor", mac_address, x, y, z, yaw: 0, pitch: 0, roll: 0 });
