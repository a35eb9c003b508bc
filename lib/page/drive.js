// Runs scripts on the web page as the real server serves it.  The page's modules run in a context with what they need of
// a browser; the event stream and the requests go to a real pica-http process, but what the server sends is handed to
// the page only when the script says so.  node --experimental-vm-modules drive.js <pica-http> <scripts.json> <out.ndjson>
// Acts that are impossible at their time are recorded as "none".  The expectations are in PageTrace.tla.
"use strict";
const vm = require("vm"), http = require("http"), net = require("net"), fs = require("fs"), path = require("path");
const { spawn } = require("child_process");
const [, , BIN, SRC, DST] = process.argv;
const WAIT = 10000, MARK = "FE:FE";
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
const LIT = fs.readFileSync(path.join(__dirname, "lit.js"), "utf8");
const CTM = [0.5, 0, 0, 0.5, 300, 200];   // svg to screen

let caught = [];                          // uncaught errors of the page
const NETWORK = new WeakSet();            // failures that are the script's doing
process.on("unhandledRejection", (e) => { if (!(e && typeof e === "object" && NETWORK.has(e))) caught.push(String(e && e.stack || e)); });
process.on("uncaughtException", (e) => caught.push(String(e && e.stack || e)));

function freePort() {
  return new Promise((ok) => {
    const s = net.createServer().listen(0, "127.0.0.1", () => { const p = s.address().port; s.close(() => ok(p)); });
  });
}

class Server {
  static async start(ports) {
    for (let i = 0; i < 8; i++) {
      const s = new Server();
      [s.uci, s.web] = ports ?? [await freePort(), await freePort()];
      s.proc = spawn(BIN, ["--uci-port", String(s.uci), "--web-port", String(s.web)], { stdio: "ignore", env: { ...process.env, RUST_LOG: "off" } });
      s.dead = false;
      s.proc.on("exit", () => (s.dead = true));
      s.agent = new http.Agent({ keepAlive: true });
      for (const end = Date.now() + WAIT; Date.now() < end && !s.dead; await sleep(10)) {
        try { if ((await s.ask("GET", "/get-state")).status === 200 && (await s.reachable())) return s; } catch (e) {}
      }
      s.stop();
    }
    throw new Error("the server does not start");
  }
  reachable() {
    // The UCI port is bound before the web port or after it: look without connecting.
    const want = ":" + this.uci.toString(16).toUpperCase().padStart(4, "0");
    return fs.readFileSync("/proc/net/tcp", "latin1").split("\n").some((l) => { const f = l.trim().split(/\s+/); return f[1]?.endsWith(want) && f[3] === "0A"; });
  }
  ask(method, p, body) {
    return new Promise((ok, bad) => {
      const r = http.request({ host: "127.0.0.1", port: this.web, method, path: p, agent: this.agent, timeout: WAIT,
        headers: body === undefined ? {} : { "content-type": "application/json", "content-length": Buffer.byteLength(body) } }, (res) => {
        const parts = [];
        res.on("data", (d) => parts.push(d));
        res.on("end", () => ok({ status: res.statusCode, headers: res.headers, text: Buffer.concat(parts).toString("utf8") }));
        res.on("error", bad);
      });
      r.on("timeout", () => r.destroy(new Error("timeout")));
      r.on("error", bad);
      r.end(body);
    });
  }
  async state() { return JSON.parse((await this.ask("GET", "/get-state")).text).devices; }
  stop() { try { this.proc.kill("SIGKILL"); } catch (e) {} this.agent?.destroy(); }
}

// An event stream of the real server: what has arrived and is not yet handed to the page.
class Stream {
  constructor(server) {
    this.queue = []; this.text = ""; this.marks = 0; this.over = false;
    this.opened = new Promise((ok, bad) => {
      this.req = http.get({ host: "127.0.0.1", port: server.web, path: "/events", agent: new http.Agent() }, (res) => {
        this.type = String(res.headers["content-type"] ?? "");
        res.setEncoding("utf8");
        res.on("data", (d) => this.cut(d));
        res.on("error", () => {});
        res.on("close", () => (this.over = true));
        res.statusCode === 200 ? ok() : bad(new Error("status " + res.statusCode));
      });
      this.req.on("error", (e) => { this.over = true; bad(e); });
    });
  }
  cut(d) {
    this.text += d;
    for (let i; (i = this.text.indexOf("\n\n")) >= 0;) {
      const lines = this.text.slice(0, i).split("\n");
      this.text = this.text.slice(i + 2);
      let name = "message", data = [];
      for (const l of lines) {
        const m = l.match(/^(\w+):? ?(.*)$/);
        if (m && m[1] === "event") name = m[2];
        if (m && m[1] === "data") data.push(m[2]);
      }
      const e = { name, data: data.join("\n") };
      if (e.data.includes('"' + MARK + '"')) { if (name === "device-removed") this.marks++; } else this.queue.push(e);
    }
  }
  close() { this.req.destroy(); }
}

// --- what a page needs of a browser
function browser(world) {
  const ctx = vm.createContext({});
  ctx.__ctm = CTM;
  ctx.__report = (e) => { if (!(e && typeof e === "object" && NETWORK.has(e))) caught.push(String(e && e.stack || e)); };
  ctx.console = Object.fromEntries(["log", "info", "debug", "warn", "error", "trace", "assert"].map((k) => [k, () => {}]));
  ctx.setTimeout = (f, ms, ...a) => setTimeout(f, ms, ...a); ctx.clearTimeout = clearTimeout;
  ctx.setInterval = () => 0; ctx.clearInterval = () => {};
  Object.assign(ctx, { AbortController, AbortSignal, performance, Headers, TextDecoder, TextEncoder });
  ctx.requestAnimationFrame = (f) => setImmediate(() => f(performance.now())); ctx.cancelAnimationFrame = clearImmediate;
  ctx.queueMicrotask = queueMicrotask; ctx.URL = URL; ctx.URLSearchParams = URLSearchParams; ctx.structuredClone = structuredClone;
  ctx.__world = world;
  vm.runInContext(`
    globalThis.window = globalThis.self = globalThis;
    class Event {
      constructor(type, init = {}) { Object.assign(this, init); this.type = type; this.defaultPrevented = false; this.__stop = false; this.__now = false; }
      preventDefault() { this.defaultPrevented = true; }
      stopPropagation() { this.__stop = true; }
      stopImmediatePropagation() { this.__stop = this.__now = true; }
      composedPath() { return this.__path ?? []; }
    }
    class CustomEvent extends Event { constructor(type, init = {}) { super(type, init); this.detail = init.detail ?? null; } }
    class EventTarget {
      constructor() { this.__l = {}; }
      addEventListener(type, f, o) { const l = (this.__l[type] ??= []); if (!l.some((x) => x.f === f)) l.push({ f, once: !!(o && o.once) }); o?.signal?.addEventListener("abort", () => this.removeEventListener(type, f)); }
      removeEventListener(type, f) { if (this.__l[type]) this.__l[type] = this.__l[type].filter((x) => x.f !== f); }
      dispatchEvent(e) {
        e.target ??= this; e.currentTarget = this;
        const on = this["on" + e.type];
        const all = [...(this.__l[e.type] ?? [])];
        if (typeof on === "function") all.push({ f: on });
        for (const x of all) {
          if (e.__now) break;
          if (x.once) this.removeEventListener(e.type, x.f);
          try { typeof x.f === "function" ? x.f.call(this, e) : x.f.handleEvent(e); } catch (err) { __report(err); }
        }
        return !e.defaultPrevented;
      }
    }
    Object.assign(globalThis, { Event, CustomEvent, EventTarget });
    class MessageEvent extends Event { constructor(type, init = {}) { super(type, init); } }
    class MouseEvent extends Event {}
    globalThis.MessageEvent = MessageEvent; globalThis.MouseEvent = MouseEvent;
    class HTMLElement extends EventTarget {
      constructor() { super(); this.attrs = {}; this.style = {}; }
      getAttribute(k) { return this.attrs[k] ?? null; }
      setAttribute(k, v) { this.attrs[k] = String(v); }
      get id() { return this.attrs.id ?? ""; }
      get tagName() { return this.__tag; }
      get localName() { return this.__tag; }
      getBoundingClientRect() { return { x: 0, y: 0, left: 0, top: 0, width: 1200, height: 1200 }; }
    }
    globalThis.HTMLElement = HTMLElement;
    // The window and the document are event targets.
    const top = new EventTarget();
    globalThis.__window = top;
    for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) globalThis[k] = (...a) => top[k](...a);
    globalThis.document = new EventTarget();
    document.readyState = "interactive";
    document.__elements = [];
    document.getElementById = (id) => document.__elements.find((e) => e.id === id) ?? null;
    document.querySelectorAll = (s) => document.__elements.filter((e) => s[0] === "#" ? e.id === s.slice(1) : e.__tag === s);
    document.querySelector = (s) => document.querySelectorAll(s)[0] ?? null;
    globalThis.location = new URL("http://pica.test/");
    const kinds = {};
    globalThis.customElements = {
      define(tag, cls) {
        kinds[tag] = cls;
        cls.finalize?.();
        for (const x of __world.tags.filter((x) => x.tag === tag)) {
          const e = new cls();
          e.__tag = tag; e.attrs = { ...x.attrs };
          document.__elements.push(e);
          e.connectedCallback?.();
        }
      },
      get: (tag) => kinds[tag],
      whenDefined: (tag) => Promise.resolve(kinds[tag]),
    };
    class DOMMatrix {
      constructor(m) { [this.a, this.b, this.c, this.d, this.e, this.f] = m ?? [1, 0, 0, 1, 0, 0]; }
      rotateAxisAngleSelf() { return this; }
      scaleSelf() { return this; }
      inverse() {
        const { a, b, c, d, e, f } = this, n = a * d - b * c;
        return new DOMMatrix([d / n, -b / n, -c / n, a / n, (c * f - d * e) / n, (b * e - a * f) / n]);
      }
      transformPoint(p) { return new DOMPoint(this.a * p.x + this.c * p.y + this.e, this.b * p.x + this.d * p.y + this.f); }
      static fromMatrix(m) { return new DOMMatrix([m.a, m.b, m.c, m.d, m.e, m.f]); }
      toString() { return "matrix(" + [this.a, this.b, this.c, this.d, this.e, this.f].join(", ") + ")"; }
    }
    for (const k of ["rotate", "rotateSelf", "rotateAxisAngle", "scale", "skewXSelf", "skewYSelf", "translate", "translateSelf", "multiply", "multiplySelf"])
      DOMMatrix.prototype[k] = function () { return this; };
    class DOMPoint {
      constructor(x = 0, y = 0) { this.x = x; this.y = y; }
      matrixTransform(m) { return m.transformPoint(this); }
    }
    Object.assign(globalThis, { DOMMatrix, DOMPoint, SVGPoint: DOMPoint });
    class EventSource extends EventTarget {
      constructor(url) { super(); this.url = String(url); this.readyState = 0; __world.sources.push(this); }
      close() { this.readyState = 2; __world.closed(this); }
    }
    Object.assign(EventSource, { CONNECTING: 0, OPEN: 1, CLOSED: 2 });
    globalThis.EventSource = EventSource;
    globalThis.fetch = (u, o) => new Promise((ok, bad) => __world.fetch(new URL(String(u?.url ?? u), location).pathname, o ?? {}, ok, bad));
    globalThis.__network = () => new TypeError("Failed to fetch");
    globalThis.__response = (status, text) => ({ ok: status >= 200 && status < 300, status, text: async () => text, json: async () => JSON.parse(text) });
  `, ctx);
  return ctx;
}

class World {
  constructor(script) {
    this.script = script; this.sources = []; this.asks = []; this.posts = []; this.stream = null; this.hosts = [];
    this.down = false; this.loading = []; this.sliders = {}; this.dragging = null; this.pos = {};
  }

  async run() {
    this.server = await Server.start();
    const steps = [];
    caught = [];
    let broken = false;
    try {
      await this.load();
      steps.push(await this.record({ k: "page" }));
      for (const a of this.script.steps) {
        const act = await this.act(a);
        if (act.k === "none") continue;
        steps.push(await this.record(act));
        while (a.all && this.stream?.queue.length) steps.push(await this.record(await this.act(a)));
        // What the server tells about the neighbours goes with the update.
        while (a.group && this.stream?.queue[0]?.name === "neighbor-updated") steps.push(await this.record(await this.act(a)));
        if (this.server.dead && !this.down) { broken = true; break; }
      }
    } catch (e) {
      caught.push("harness: " + (e && e.stack || e));
      steps.push({ ...(await this.record({ k: "none" }, true)) });
    } finally {
      this.stream?.close();
      for (const h of this.hosts) h.destroy();
      this.server.stop();
    }
    return { id: this.script.id, steps };
  }

  // --- loading the page
  async file(p) {
    const r = await this.server.ask("GET", p);
    if (r.status !== 200) throw new Error(p + ": status " + r.status);
    return r;
  }
  async load() {
    this.ctx = browser(this);
    const page = await this.file("/");
    if (!/^text\/html/.test(page.headers["content-type"] ?? "")) throw new Error("the page is not HTML");
    const text = page.text.replace(/<!--[\s\S]*?-->/g, "");
    const scripts = [...text.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)];
    const bare = text.replace(/<script[\s\S]*?<\/script>|<style[\s\S]*?<\/style>/g, "");
    this.tags = [...bare.matchAll(/<([a-z]\w*-[\w-]*)([^>]*)>/g)].map((m) => ({ tag: m[1],
      attrs: Object.fromEntries([...m[2].matchAll(/([\w-]+)(?:="([^"]*)")?/g)].map((a) => [a[1], a[2] ?? ""])) }));
    let imports = {};
    const modules = new globalThis.Map();
    for (const [, attrs, code] of scripts) if (/type="importmap"/.test(attrs)) imports = JSON.parse(code).imports;
    const get = async (url) => {
      if (!modules.has(url)) modules.set(url, (async () => {
        let code;
        if (url === "lit:") code = LIT;
        else {
          const r = await this.file(new URL(url).pathname);
          if (!/^(application|text)\/(x-)?(java|ecma)script/.test(r.headers["content-type"] ?? "")) throw new Error(url + " is not a script: " + r.headers["content-type"]);
          code = r.text;
        }
        return new vm.SourceTextModule(code, { context: this.ctx, identifier: url });
      })());
      return modules.get(url);
    };
    const resolve = (spec, from) => {
      if (/^[./]/.test(spec)) return new URL(spec, from.startsWith("http") ? from : "http://pica.test/").href;
      if (!(spec in imports)) throw new Error("cannot resolve " + spec);
      if (/^lit$|^lit\//.test(spec)) return "lit:";
      return new URL(imports[spec], "http://pica.test/").href;
    };
    const link = (spec, ref) => get(resolve(spec, ref.identifier));
    for (const [, attrs, code] of scripts) {
      if (!/type="module"/.test(attrs)) continue;
      const src = attrs.match(/src="([^"]*)"/);
      const m = src ? await get(new URL(src[1], "http://pica.test/").href)
        : new vm.SourceTextModule(code, { context: this.ctx, identifier: "http://pica.test/" });
      await m.link(link);
      await m.evaluate();
    }
  }

  // --- called by the page
  closed(s) { if (s === this.source) { this.stream?.close(); this.stream = null; } }
  get source() { return this.sources.findLast((s) => s.readyState !== 2 || s.__broken); }
  fetch(p, o, ok, bad) {
    const method = (o.method ?? "GET").toUpperCase();
    const ask = { method, path: p, ok, bad, reply: null };
    if (method === "GET" && p === "/get-state") {
      if (this.down) return this.reject(ask);
      this.asks.push(ask);
    } else {
      this.posts.push({ method, path: p, body: o.body });
      ask.body = o.body;
      if (this.down) return this.reject(ask);
      this.loading.push(this.server.ask(method, p, o.body === undefined ? undefined : String(o.body)).then(
        (r) => ok(this.ctx.__response(r.status, r.text)), () => this.reject(ask)));
    }
  }
  reject(ask) { const e = this.ctx.__network(); NETWORK.add(e); ask.bad(e); }

  // --- the server's side
  async settle() {
    await Promise.all(this.loading.splice(0));
    // Everything the server has sent so far is in the queue when the mark has come.
    if (this.stream && !this.stream.over && !this.down) {
      const n = this.stream.marks + 1;
      await this.server.ask("POST", "/create-anchor/FEFE");
      await this.server.ask("POST", "/destroy-anchor/FEFE");
      for (const end = Date.now() + WAIT; this.stream.marks < n && Date.now() < end && !this.stream.over;) await sleep(1);
      if (this.stream.marks < n) throw new Error("the events do not come");
    }
    for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r));
    if (this.loading.length) await this.settle();
  }
  async hostsSeen() {
    const n = this.hosts.filter((h) => !h.gone).length;
    for (const end = Date.now() + WAIT; Date.now() < end; await sleep(2))
      if ((await this.server.state()).filter((d) => d.category === "Uci").length === n) return;
    throw new Error("the scene does not show the hosts");
  }

  // --- the user's side
  part(tag) { return this.ctx.document.__elements.find((e) => e.__tag === tag); }
  drawn() { return (this.part("pika-map")?.renderRoot?.children ?? []).flatMap((c) => [...c.all()]); }
  // A marker: a group of its own with a place.  The selected one has a round handle.
  markers() {
    const is = (e) => e.tag === "g" && /^\s*translate\(/.test(e.attrs.transform ?? "");
    return this.drawn().filter((e) => { for (let p = e.parent; p; p = p.parent) if (is(p)) return false; return is(e); });
  }
  mouse(type, el, extra) {
    const host = this.part("pika-map");
    const path = [];
    for (let e = el; e; e = e.parent) path.push(e);
    // Outside the map, or outside the window while a button is held: the map's elements do not see it.
    const outer = el ? [host.renderRoot, host, this.ctx.document, this.ctx.__window] : [this.ctx.document, this.ctx.__window];
    const full = [...path, ...outer];
    const ev = new this.ctx.MouseEvent(type, { clientX: 0, clientY: 0, movementX: 0, movementY: 0, button: 0, buttons: 1, ...extra });
    ev.__path = full;
    ev.target = el ?? this.ctx.document;
    for (const e of path) {
      const f = e.handlers[type];
      if (f && !ev.__stop) { ev.currentTarget = e; try { typeof f === "function" ? f.call(host, ev) : f.handleEvent(ev); } catch (err) { this.ctx.__report(err); } }
    }
    for (const t of outer) if (!ev.__stop && t.dispatchEvent) { t.dispatchEvent(ev); }
  }
  surface() { return this.part("pika-map").renderRoot.children[0]; }
  screen(x, y) { return { clientX: CTM[0] * x + CTM[4], clientY: CTM[3] * y + CTM[5] }; }
  panelNodes() { const p = this.part("pika-device-info"); return [...(p?.renderRoot?.children ?? [])].flatMap((c) => [...c.all()]); }
  inputs() {
    const res = {};
    for (const l of this.panelNodes().filter((e) => e.tag === "label")) {
      const i = [...l.all()].find((e) => e.tag === "input"), m = l.textContent.match(/(Yaw|Pitch|Roll)/);
      if (i && m) res[m[1].toLowerCase()] = i;
    }
    return res;
  }
  // Where the sliders stand: an attribute has no effect any more once the user has moved a slider.
  stand() {
    const now = this.inputs(), old = this.sliders;
    this.sliders = {};
    for (const [k, i] of Object.entries(now)) {
      const s = old[k] ?? { dirty: null, prop: undefined };
      if ("value" in i.props) {
        if (!Object.is(s.prop, i.props.value)) { s.prop = i.props.value; s.dirty = String(i.props.value); }
      }
      s.at = s.dirty ?? i.attrs.value;
      this.sliders[k] = s;
    }
  }

  async act(a) {
    const none = { k: "none" };
    const src = this.source;
    switch (a.k) {
      case "load":
        if (this.loaded) return none;
        this.loaded = true;
        this.ctx.document.readyState = "complete";
        this.ctx.__window.dispatchEvent(new this.ctx.Event("load"));
        return { k: "load" };
      case "connect":
        if (!src || this.stream || this.down || src.readyState !== 0) return none;
        this.stream = new Stream(this.server);
        await this.stream.opened;
        if (!/^text\/event-stream/.test(this.stream.type)) throw new Error("no event stream: " + this.stream.type);
        this.stream.queue.unshift({ name: "open" });
        return { k: "connect" };
      case "deliver": {
        if (!this.stream || !this.stream.queue.length) return none;
        const e = this.stream.queue.shift();
        if (e.name === "open") {
          src.readyState = 1;
          src.dispatchEvent(new this.ctx.Event("open"));
          return { k: "open" };
        }
        src.dispatchEvent(new this.ctx.MessageEvent(e.name, { data: e.data, lastEventId: "" }));
        return { k: "event", e: plain(e) };
      }
      case "serve": {
        const q = this.asks.filter((x) => !x.reply);
        if (!q.length || this.down) return none;
        q[a.i % q.length].reply = await this.server.ask("GET", "/get-state");
        return { k: "serve" };
      }
      case "reply": {
        const q = this.asks.filter((x) => x.reply);
        if (!q.length) return none;
        const x = q[a.i % q.length];
        this.asks = this.asks.filter((y) => y !== x);
        x.ok(this.ctx.__response(x.reply.status, x.reply.text));
        return { k: "reply" };
      }
      case "fail": {
        if (!this.asks.length) return none;
        const x = this.asks.splice(a.i % this.asks.length, 1)[0];
        this.reject(x);
        return { k: "fail" };
      }
      case "break":
        if (!this.stream) return none;
        this.lost();
        return { k: "break" };
      case "restart": {
        // The server goes away and comes back, with nothing in it.
        for (const h of this.hosts) { h.gone = true; h.destroy(); }
        const { uci, web } = this.server;
        this.server.stop();
        this.stream?.close();
        if (this.stream) this.lost();
        for (const x of this.asks.splice(0)) this.reject(x);
        this.server = await Server.start();
        return { k: "restart" };
      }
      case "srv": {
        const body = a.pos ? JSON.stringify(a.pos) : undefined;
        if (a.op === "join") {
          const s = net.connect(this.server.uci, "127.0.0.1");
          s.on("error", () => {}); s.on("data", () => {});
          this.hosts.push(s);
          await this.hostsSeen();
        } else if (a.op === "leave") {
          const s = this.hosts.filter((h) => !h.gone)[0];
          if (!s) return none;
          s.gone = true;
          s.destroy();
          await this.hostsSeen();
        } else if (a.op === "set") {
          const ds = await this.server.state();
          if (!ds.length) return none;
          ds.sort((p, q) => (p.mac_address < q.mac_address ? -1 : 1));
          await this.server.ask("POST", "/set-position/" + (a.mac ?? ds[a.i % ds.length].mac_address), body);
        } else await this.server.ask("POST", "/" + (a.op === "add" ? "create" : "destroy") + "-anchor/" + a.mac, body);
        return { k: "srv" };
      }
      case "press": {
        const ms = this.markers();
        if (!ms.length || this.held) return none;
        this.held = true;
        const i = a.i % ms.length, el = [...ms[i].all()].find((e) => e.tag === "rect") ?? ms[i];
        this.mouse("mousedown", el, {});
        return { k: "press", at: i + 1 };
      }
      case "empty": {
        if (this.held) return none;
        const top = this.surface();
        const el = top.elements.findLast((e) => e.tag === "rect" && e.parent === top) ?? top;
        this.mouse("mousedown", el, {});
        this.mouse("mouseup", el, {});
        return { k: "empty" };
      }
      case "grip": {
        const h = this.drawn().find((e) => e.tag === "circle");
        if (!h || this.held) return none;
        this.held = true;
        this.mouse("mousedown", h, {});
        return { k: "grip" };
      }
      case "move":
        this.mouse("mousemove", this.surface(), { ...this.screen(a.x, a.y), movementX: 0, movementY: a.dy });
        return { k: "move", x: a.x, y: a.y, dy: a.dy };
      case "release":
        if (!this.held) return none;
        this.held = false;
        this.mouse("mouseup", a.out ? null : this.surface(), {});
        return { k: "release" };
      case "slide": case "change": {
        const i = this.inputs()[a.which];
        if (!i) return none;
        const host = this.part("pika-device-info");
        const fire = (type, value) => {
          const f = i.handlers[type];
          const ev = new this.ctx.Event(type, {});
          ev.target = ev.currentTarget = Object.assign(Object.create(i), { value, valueAsNumber: Number(value) });
          if (f) try { f.call(host, ev); } catch (err) { this.ctx.__report(err); }
        };
        this.stand();
        if (a.k === "slide") {
          if (this.sliders[a.which]) this.sliders[a.which].dirty = String(a.v);
          fire("input", String(a.v));
          return { k: "slide", which: a.which, v: a.v };
        }
        if (!this.sliders[a.which]?.moved && !a.force) return none;
        fire("change", String(this.sliders[a.which]?.at ?? 0));
        return { k: "change" };
      }
    }
    throw new Error("unknown act " + a.k);
  }
  lost() {
    const s = this.source;
    this.stream.close();
    this.stream = null;
    s.readyState = 0;
    s.dispatchEvent(new this.ctx.Event("error"));
  }

  // --- what is seen
  async record(act, last) {
    const before = this.stream?.queue.length ?? 0;
    if (!last) await this.settle();
    for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r));
    this.stand();
    if (act.k === "slide" && this.sliders[act.which]) this.sliders[act.which].moved = true;
    if (act.k === "change") for (const s of Object.values(this.sliders)) s.moved = false;
    const st = last ? [] : (await this.server.state()).map((d) => ({ mac: d.mac_address, ...six(d) }));
    const s = { a: act, st, left: this.stream ? this.stream.queue.length : 0, asks: this.asks.length, errs: caught.splice(0).map((x) => x.slice(0, 200)),
      marks: this.markers().map(where), sel: this.markers().flatMap((m, i) => ([...m.all()].some((e) => e.tag === "circle") ? [i + 1] : [])),
      panel: this.panel(), posts: this.posts.splice(0).map(post) };
    return s;
  }
  panel() {
    const off = { on: false, mac: "", p: six({}), bars: [], face: [], near: [] };
    const host = this.part("pika-device-info");
    if (!host?.renderRoot) return off;
    const text = host.renderRoot.children.map((c) => c.textContent).join(" ").replace(/\s+/g, " ");
    const num = (re) => { const m = text.match(re); return m ? int(m[1]) : 99999; };
    const mac = text.match(/Mac Address: (\S+)/);
    if (!mac) return off;
    const p = { x: num(/\bX: ?(-?[\d.]+)/), y: num(/\bY: ?(-?[\d.]+)/), z: num(/\bZ: ?(-?[\d.]+)/), yaw: num(/Yaw \((-?[\d.]+)\)/),
      pitch: num(/Pitch \((-?[\d.]+)\)/), roll: num(/Roll \((-?[\d.]+)\)/) };
    const faces = this.panelNodes().filter((e) => e.tag === "pika-orientation").map((e) => ["yaw", "pitch", "roll"].map((k) => int(e.attrs[k] ?? e.props[k] ?? 0)));
    const near = [...text.matchAll(/\bMac ([0-9A-Fa-f:]+) Distance (-?[\d.]+) cm Azimuth (-?[\d.]+) Elevation (-?[\d.]+)/g)]
      .map((m, i) => ({ mac: m[1], d: int(m[2]), az: int(m[3]), el: int(m[4]), face: faces[i + 1] ?? [] }));
    return { on: true, mac: mac[1], p, bars: ["yaw", "pitch", "roll"].map((k) => int(this.sliders[k]?.at)), face: faces[0] ?? [], near };
  }
}
const int = (v) => { const n = Number(v); return Number.isInteger(n) && Math.abs(n) < 1 << 30 ? n + 0 : 99999; };
const six = (d) => Object.fromEntries(["x", "y", "z", "yaw", "pitch", "roll"].map((k) => [k, int(d[k] ?? 0)]));
function where(m) {
  const t = (m.attrs.transform ?? "").match(/translate\(\s*(-?[\d.]+)[\s,]+(-?[\d.]+)\s*\)/);
  return t ? [int(t[1]), int(t[2])] : [99999, 99999];
}
function plain(e) {
  let o = {};
  try { o = JSON.parse(e.data); } catch (x) {}
  return { n: e.name, mac: String(o.mac_address ?? o.source_mac_address ?? ""), mac2: String(o.destination_mac_address ?? ""), p: six(o),
    d: int(o.distance ?? 0), az: int(o.azimuth ?? 0), el: int(o.elevation ?? 0) };
}
function post(q) {
  const m = q.path.match(/^\/set-position\/([^/]+)$/);
  let o = null;
  try { o = JSON.parse(q.body); } catch (e) {}
  if (q.method !== "POST" || !m || !o) return { ok: false, mac: "", p: six({}) };
  return { ok: ["x", "y", "z", "yaw", "pitch", "roll"].every((k) => typeof o[k] === "number"), mac: decodeURIComponent(m[1]), p: six(o) };
}

(async () => {
  const out = fs.createWriteStream(DST);
  for (const s of JSON.parse(fs.readFileSync(SRC, "utf8"))) out.write(JSON.stringify(await new World(s).run()) + "\n");
  out.end(() => process.exit(0));
})().catch((e) => { console.error(e); process.exit(2); });
