// The page's own scripts in a simulated browser: virtual time, seeded user, seeded server, seeded engine worker.
// usage: node page_sim.js JOB.json   (job: {sites: {server, deploy}, seeds|plans, prop, twice})
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const crypto = require("crypto");
const dom = require("./dom.js");

const sources = new Map();
function source(file) {
  if (!sources.has(file)) {
    const text = fs.readFileSync(file, "utf-8");
    let script = null;
    let error = null;
    try {
      script = new vm.Script(text, { filename: path.basename(file) });
    } catch (err) {
      error = String(err);
    }
    sources.set(file, { text, script, error });
  }
  return sources.get(file);
}

const trees = new Map();
function tree(file) {
  if (!trees.has(file)) trees.set(file, dom.parse(fs.readFileSync(file, "utf-8")));
  return trees.get(file);
}

// seeded choices -------------------------------------------------------------------------------------------------
class Rng {
  constructor(seed) {
    this.s = crypto.createHash("sha256").update(String(seed)).digest().readUInt32LE(0);
  }
  next() {
    let t = (this.s += 0x6d2b79f5);
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  }
  int(lo, hi) {
    return lo + Math.floor(this.next() * (hi - lo + 1));
  }
  chance(p) {
    return this.next() < p;
  }
  pick(list) {
    return list[Math.floor(this.next() * list.length)];
  }
}

const WORDS = ["coral", "creek", "hinge", "context", "nothing", "nothree", "chocona", "squarejam", "fivecells", "tslither", "cocktail"];
const HOSTS = ["https://puzz.link/p?", "https://pzplus.tck.mn/p?", "https://pzv.jp/p.html?", "http://pzv.jp/p.html?"];

function delay(rng) {
  return rng.pick([() => 0, () => rng.int(1, 30), () => rng.int(1, 30), () => rng.int(50, 900), () => rng.int(50, 900), () => rng.int(2000, 31000)])();
}

// more facts of each answer
function fat(solve) {
  return Array.from({ length: solve.out.fat || 0 }, (_, n) => `fact(${n},${solve.k},"x")`);
}

function outcome(rng, mode) {
  const kind =
    mode === "server"
      ? rng.pick(["ok", "ok", "ok", "ok", "ok", "ok", "none", "e400", "e500", "e504", "e502", "e503", "net", "never", "cut"])
      : rng.pick(["ok", "ok", "ok", "ok", "ok", "ok", "none", "prep", "prepthrow", "gen", "store", "engine", "unknown", "never"]);
  const out = { kind, head: delay(rng), body: rng.chance(0.6) ? 0 : delay(rng) };
  if (kind === "ok" || kind === "store") out.n = rng.pick([1, 1, 2, 2, 3, 4, 9, 10, 10]);
  if (mode !== "server") out.fat = rng.pick([0, 0, 0, 3, 40, 1200]);
  if (kind === "store") out.at = rng.int(0, out.n - 1);
  return out;
}

function initing(rng) {
  return rng.chance(0.12) ? { kind: "never" } : { kind: "ok", after: delay(rng) };
}

function makePlan(seed, modes) {
  const rng = new Rng(seed);
  const mode = rng.pick(modes);
  const acts = [];
  let t = 0;
  const gap = () => {
    t += rng.pick([0, 1, rng.int(2, 40), rng.int(2, 40), rng.int(100, 1500), rng.int(100, 1500), rng.int(5000, 40000)]);
    return t;
  };
  const push = (kind, more) => acts.push({ t: gap(), kind, ...more });
  const edit = () => push("edit", { word: rng.chance(0.04) ? rng.pick(WORDS) : "", x: rng.int(1, 1e9) });
  const cycles = rng.int(1, rng.chance(0.2) ? 9 : 4);
  for (let c = 0; c < cycles; c++) {
    if (rng.chance(c === 0 ? 0.93 : 0.35)) push("type", { pick: rng.int(0, 100000), param: rng.chance(0.35) });
    if (rng.chance(0.4)) push("example", { pick: rng.int(0, 1000) });
    for (let i = rng.int(0, 2); i > 0; i--) edit();
    if (rng.chance(0.12)) push("import", { host: rng.pick(HOSTS), name: rng.pick([...WORDS, "slither", "akari"]), x: rng.int(1, 1e9), via: rng.pick(["url", "penpa", "solve", "bad"]) });
    for (let i = rng.int(0, 2); i > 0; i--) push("param", { pick: rng.int(0, 10), x: rng.int(0, 20) });
    if (rng.chance(0.06)) push("reset", { init: initing(rng) });
    if (rng.chance(0.05)) push("panel", {});
    push("solve", { out: outcome(rng, mode) });
    const more = rng.pick([0, 0, 1, 2, 3, 5, 12]);
    for (let i = 0; i < more; i++) {
      const what = rng.next();
      if (what < 0.72) push("solve", { out: outcome(rng, mode) });
      else if (what < 0.8) edit();
      else if (what < 0.86) push("type", { pick: rng.int(0, 100000) });
      else if (what < 0.92) push("example", { pick: rng.int(0, 1000) });
      else if (what < 0.96) push("param", { pick: rng.int(0, 10), x: rng.int(0, 20) });
      else push("panel", {});
    }
    if (rng.chance(0.93)) {
      push("reset", { init: initing(rng) });
      if (rng.chance(0.15)) push("reset", { init: initing(rng) });
    }
  }
  return { mode, acts, init: initing(rng), bridge: rng.chance(0.9) ? 0 : rng.int(1, 20000), random: rng.int(0, 1e9) };
}

// one simulated page -----------------------------------------------------------------------------------------------
class Page {
  constructor(plan, sites) {
    this.plan = plan;
    this.deploy = plan.mode === "deploy";
    this.dir = sites[plan.mode];
    this.now = 0;
    this.seq = 0;
    this.queue = [];
    this.stopped = new Set();
    this.stores = {};
    this.log = [];
    this.dialogs = [];
    this.requests = [];
    this.opened = [];
    this.workers = [];
    this.errors = [];
    this.fired = {};
    this.inits = [plan.init];
    this.counter = 0;
    this.content = "m=edit&p=START";
    this.solves = [];
    this.options = null;
    this.imports = [];
  }

  count(name) {
    this.fired[name] = (this.fired[name] || 0) + 1;
  }

  at(after, fn, label) {
    this.queue.push({ t: this.now + after, n: this.seq++, fn, label });
  }

  store(name) {
    const items = (this.stores[name] = new Map());
    return {
      getItem: (key) => (items.has(String(key)) ? items.get(String(key)) : null),
      setItem: (key, value) => void items.set(String(key), String(value)),
      removeItem: (key) => void items.delete(String(key)),
      clear: () => items.clear(),
    };
  }

  // repeated timers
  every(id, ms, fn) {
    this.at(
      ms,
      () => {
        if (this.stopped.has(id)) return;
        this.every(id, ms, fn);
        fn();
      },
      "interval",
    );
  }

  async flush() {
    await new Promise((done) => setImmediate(done));
  }

  // the world outside the page's own scripts
  open() {
    const file = path.join(this.dir, "index.html");
    this.document = new dom.Document(tree(file));
    const page = this;
    const doc = this.document;
    dom.Target.onError = (err) => page.errors.push(String(err && err.stack ? err.stack : err));
    const window = new dom.Target();
    this.window = window;
    const jq = (arg) => {
      if (typeof arg === "function") window.addEventListener("load", arg);
      const list =
        typeof arg === "string" ? [...doc.querySelectorAll(arg)] : arg === window || arg === context ? [window] : arg && arg.addEventListener ? [arg] : [];
      const each = (fn) => (list.forEach(fn), self);
      const self = {
        length: list.length,
        get: (n) => (n === undefined ? list : list[n]),
        each: (fn) => each((x, n) => fn.call(x, n, x)),
        on: (type, fn) => each((x) => x.addEventListener(type, fn)),
        off: (type, fn) => each((x) => x.removeEventListener(type, fn)),
        click: (fn) => self.on("click", fn),
        change: (fn) => self.on("change", fn),
        ready: (fn) => (window.addEventListener("load", fn), self),
        trigger: () => self,
        prop: (key, value) => (value === undefined ? list[0] && list[0][key] : each((x) => (x[key] = value))),
        attr: (key, value) => (value === undefined ? list[0] && list[0].getAttribute(key) : each((x) => x.setAttribute(key, value))),
        val: (value) => (value === undefined ? list[0] && list[0].value : each((x) => (x.value = value))),
        text: (value) => (value === undefined ? list.map((x) => x.textContent).join("") : each((x) => (x.textContent = value))),
        html: (value) => (value === undefined ? list[0] && list[0].innerHTML : each((x) => (x.innerHTML = value))),
        css: (key, value) => (value === undefined ? list[0] && list[0].style[key] : each((x) => (x.style[key] = value))),
        is: (what) => list.some((x) => x.matches && x.matches(what)),
        show: () => self.css("display", ""),
        hide: () => self.css("display", "none"),
        empty: () => each((x) => x.replaceChildren()),
        append: (...kids) => each((x) => x.append(...kids)),
      };
      list.forEach((x, n) => (self[n] = x));
      return self;
    };
    class Choices {
      constructor(el) {
        this.el = typeof el === "string" ? doc.querySelector(el) : el;
        const input = doc.createElement("input");
        input.className = "choices__input choices__input--cloned";
        this.el.parentNode.appendChild(input);
      }
      _add(item, parent) {
        if (item.choices) {
          const group = doc.createElement("optgroup");
          group.label = item.label;
          parent.appendChild(group);
          item.choices.forEach((x) => this._add(x, group));
          return;
        }
        const option = doc.createElement("option");
        option.value = item.value;
        option.text = item.label;
        if (item.disabled) option.disabled = true;
        option.customProperties = item.customProperties;
        parent.appendChild(option);
        if (item.selected) option.selected = true;
      }
      setChoices(list, _value, _label, replace) {
        if (replace) this.clearStore();
        list.forEach((x) => this._add(x, this.el));
        return this;
      }
      clearStore() {
        this.el.replaceChildren();
        return this;
      }
      clearChoices() {
        return this.clearStore();
      }
      removeActiveItems() {
        return this;
      }
      setChoiceByValue(value) {
        this.el.value = value;
        return this;
      }
      getValue(plain) {
        return plain ? this.el.value : { value: this.el.value };
      }
      enable() {
        this.el.disabled = false;
        return this;
      }
      disable() {
        this.el.disabled = true;
        return this;
      }
    }
    // the editor leaves the history of the user's edits out of the text unless it is told to save it
    const text = () => (doc.getElementById("save_undo") && !doc.getElementById("save_undo").checked ? page.content.replace(/^m=edit&p=B/, "m=edit&p=b") : page.content);
    const pu = { space: [0, 0, 0, 0], maketext: () => `https://swaroopg92.github.io/penpa-edit/#${text()}` };
    const load = (text) => {
      if (!String(text.split("&")[1]).startsWith("p=")) throw new TypeError("unreadable board");
      page.content = text;
    };
    const nothing = () => {};
    const globals = {
      $: jq,
      jQuery: jq,
      Choices,
      Swal: {
        fire: (...args) => {
          const o = typeof args[0] === "object" ? args[0] : { title: args[0], text: args[1] };
          page.dialogs.push([o.title, o.text, o.html, o.footer].map((x) => (x === undefined ? "" : String(x))).join(" | "));
          return new Promise(() => {});
        },
        close: nothing,
        isVisible: () => false,
      },
      pu,
      load,
      import_url: (text) => page.importUrl(text),
      create_newboard: () => {
        page.content = `m=edit&p=NEW${page.counter++}`;
      },
      advancecontrol_toggle: nothing,
      changetype: nothing,
      focus: nothing,
      fetch: (...args) => page.fetch(...args),
      setTimeout: (fn, ms = 0, ...args) => {
        const id = page.seq;
        page.at(Math.max(0, Number(ms) || 0), () => fn(...args), `timer${id}`);
        return id;
      },
      clearTimeout: (id) => {
        page.queue = page.queue.filter((x) => x.n !== id);
        page.stopped.add(id);
      },
      setInterval: (fn, ms = 0, ...args) => {
        const id = -page.seq - 1;
        page.every(id, Math.max(4, Number(ms) || 0), () => fn(...args));
        return id;
      },
      clearInterval: (id) => page.stopped.add(id),
      requestAnimationFrame: (fn) => page.at(16, fn, "frame"),
      queueMicrotask,
      console: { log: nothing, info: nothing, warn: nothing, error: nothing, debug: nothing },
      document: doc,
      location: { href: "http://sim/penpa-edit/", origin: "http://sim", pathname: "/penpa-edit/", hash: "", search: "", host: "sim", protocol: "http:" },
      navigator: { userAgent: "sim", language: "en", clipboard: { writeText: async () => {} } },
      localStorage: page.store("local"),
      sessionStorage: page.store("session"),
      performance: { now: () => page.now },
      AbortController,
      AbortSignal,
      URL: Object.assign(
        class extends URL {},
        { createObjectURL: () => `blob:sim/${page.counter++}`, revokeObjectURL: nothing },
      ),
      URLSearchParams,
      TextEncoder,
      TextDecoder,
      Blob: class {},
      Event: dom.Event,
      CustomEvent: dom.Event,
      structuredClone,
      open: (url) => page.opened.push(String(url)),
      alert: (text) => page.dialogs.push(String(text)),
      confirm: () => true,
      addEventListener: (...a) => window.addEventListener(...a),
      removeEventListener: (...a) => window.removeEventListener(...a),
      dispatchEvent: (...a) => window.dispatchEvent && window.dispatchEvent(...a),
      Worker: class {
        constructor() {
          return page.worker();
        }
      },
    };
    const context = vm.createContext(globals);
    this.context = context;
    globals.window = globals.self = globals.top = globals.parent = context;
    vm.runInContext(`Math.random = (() => { let s = ${this.plan.random >>> 0}; return () => (s = (s * 1103515245 + 12345) >>> 0) / 4294967296; })();`, context);
    context.__now = () => page.now;
    vm.runInContext("Date.now = () => 1700000000000 + __now();", context);
    doc.defaultView = window;
    doc._run = (code) => vm.runInContext(code, context);
    let booted = false;
    doc._added = (node) => {
      if (booted && node.tagName === "SCRIPT" && node.src) page.script(node.src, node.type);
    };
    // the scripts of the page itself, in order; the ones from elsewhere are stubbed
    booted = true;
    for (const el of doc.getElementsByTagName("script")) {
      const src = el.getAttribute("src");
      if (src) this.script(src, el.type);
      else if (!el.type || el.type.includes("javascript")) this.code(new vm.Script(el.textContent), "inline");
    }
    for (const [at, fn] of [[this.plan.bridge || 0, () => this.bridge()]]) {
      if (this.deploy) {
        if (at) this.at(at, fn, "bridge");
        else fn();
      }
    }
    doc.readyState = "complete";
    doc.dispatchEvent(new dom.Event("DOMContentLoaded"));
    window._fire(new dom.Event("load"));
  }

  script(src, type) {
    if (/^(https?:)?\/\//.test(src) || type === "py" || type === "module") return;
    if (/worker/.test(src)) return; // the engine worker's file does nothing on the page itself
    const file = path.join(this.dir, src.replace(/^\.\//, "").replace(/[?#].*$/, ""));
    if (!fs.existsSync(file)) {
      this.errors.push(`missing script ${src}`);
      return;
    }
    const got = source(file);
    if (got.error) this.errors.push(got.error);
    else {
      this.document.currentScript = { tagName: "SCRIPT", src: `http://sim/penpa-edit/${path.basename(file)}` };
      this.code(got.script, src);
      this.document.currentScript = null;
    }
  }

  code(script, name) {
    try {
      script.runInContext(this.context, { timeout: 10000 });
    } catch (err) {
      this.errors.push(`${name}: ${err && err.stack ? err.stack : err}`);
    }
  }

  importUrl(text) {
    text = text || this.document.getElementById("urlstring").value;
    this.imports.push(text);
    if (text === "") return;
    if (/(puzz\.link|pzv\.jp)\/p(\.html)?\?/.test(text)) {
      const query = text.split("?").slice(1).join("?");
      this.content = `m=edit&p=I${Buffer.from(query).toString("hex")}`;
    } else if (text.includes("/penpa-edit/")) {
      const board = text.split("#")[1];
      if (board === undefined || !String(board.split("&")[1]).startsWith("p=")) throw new TypeError("unreadable board");
      this.content = board;
    } else {
      this.dialogs.push("Invalid URL");
    }
  }

  // server ---------------------------------------------------------------------------------------------------
  fetch(input, init = {}) {
    const page = this;
    const url = new URL(String(input && input.url ? input.url : input), "http://sim/penpa-edit/");
    const out = this.pendingOutcome || { kind: "ok", n: 1, head: 1, body: 0 };
    this.pendingOutcome = null;
    const solve = this.newSolve(out);
    const request = { solve, path: url.pathname, method: String(init.method || "GET").toUpperCase() };
    try {
      const body = JSON.parse(init.body);
      Object.assign(request, { name: body.puzzle_name, board: body.puzzle, param: body.param });
    } catch (err) {
      request.bad = String(err);
    }
    this.requests.push(request);
    if (request.path !== "/api/solve/" || request.method !== "POST" || request.bad) out.kind = "e404";
    const status = { ok: 200, none: 200, cut: 200, e400: 400, e404: 404, e500: 500, e504: 504, e502: 502, e503: 503 }[out.kind];
    const text = {
      ok: () => JSON.stringify({ url: solve.answers }),
      none: () => JSON.stringify({ url: [] }),
      cut: () => '{"url": ["m=edit&p=TORN',
      e400: () => JSON.stringify({ detail: solve.reason }),
      e500: () => JSON.stringify({ detail: "Unknown error." }),
      e504: () => JSON.stringify({ detail: "Time limit exceeded." }),
      e502: () => "<html><body>Bad Gateway</body></html>",
      e503: () => JSON.stringify({ error: "overloaded" }),
      e404: () => JSON.stringify({ detail: "Not Found" }),
    }[out.kind];
    if (out.kind !== "ok") this.count(`server ${out.kind}`);
    return new Promise((resolve, reject) => {
      const signal = init.signal;
      const abort = () => {
        solve.aborted = true;
        reject(Object.assign(new Error("The user aborted a request."), { name: "AbortError" }));
      };
      if (signal) {
        if (signal.aborted) return abort();
        signal.addEventListener("abort", abort);
      }
      if (out.kind === "never") return undefined;
      this.deliver(out.head, solve, out.kind === "net", () => {
        if (solve.aborted) return;
        if (out.kind === "net") {
          reject(new TypeError("Failed to fetch"));
          return;
        }
        const body = new Promise((okBody, badBody) => {
          if (signal) signal.addEventListener("abort", () => badBody(Object.assign(new Error("aborted"), { name: "AbortError" })));
          page.deliver(out.body, solve, true, () => okBody(text()));
        });
        body.catch(() => {});
        const inPage = (value) => vm.runInContext(`(${JSON.stringify(value)})`, page.context);
        resolve({
          status,
          ok: status >= 200 && status < 300,
          statusText: "",
          url: String(url),
          headers: { get: (k) => (k.toLowerCase() === "content-type" ? (out.kind === "e502" ? "text/html" : "application/json") : null) },
          text: () => body,
          json: () => body.then((raw) => inPage(JSON.parse(raw))),
          clone() {
            return this;
          },
        });
      });
      return undefined;
    });
  }

  newSolve(out) {
    const k = this.solves.length;
    const solve = { k, out, reason: `reason ${k} why it failed`, answers: [], state: "pending" };
    for (let i = 0; i < (out.n || 0); i++) solve.answers.push(`m=edit&p=ANS${k}x${i}`);
    if (out.kind === "none") solve.answers = [];
    this.solves.push(solve);
    return solve;
  }

  // something about a solve reaches the page
  deliver(after, solve, last, fn) {
    this.at(after, () => ({ solve, last, fn }), `solve${solve.k}${last ? "!" : ""}`);
  }

  // in-browser engine -------------------------------------------------------------------------------------------
  bridge() {
    const page = this;
    const map = (success, result) => new Map([["success", success], ["result", result]]);
    const plain = (value) => JSON.parse(JSON.stringify(value));
    this.context.prepare_puzzle = (name, board, param) => {
      const out = page.pendingOutcome || { kind: "ok", n: 1, head: 1, body: 0 };
      page.pendingOutcome = null;
      const solve = page.newSolve(out);
      page.requests.push({ solve, path: "/api/solve/", method: "POST", name, board, param: plain(param) });
      if (out.kind !== "ok") page.count(`bridge ${out.kind}`);
      if (out.kind === "prep") return map(false, solve.reason);
      if (out.kind === "prepthrow") throw new Error(solve.reason);
      return map(true, { puzzle: solve.k });
    };
    this.context.generate_program = (puzzle) => {
      const solve = page.solves[puzzle.puzzle];
      return solve.out.kind === "gen" ? map(false, solve.reason) : map(true, `program ${solve.k}`);
    };
    this.context.store_solution = (puzzle, text) => {
      const solve = page.solves[puzzle.puzzle];
      const words = String(text).trim().split(/\s+/);
      const hit = /^atom(\d+) model(\d+)$/.exec(words.slice(0, 2).join(" "));
      if (words.slice(2).join(" ") !== fat(solve).join(" ")) return map(false, "an answer with other facts than the engine's");
      if (!hit || Number(hit[1]) !== solve.k) return map(false, "answer of another puzzle");
      if (solve.out.kind === "store" && Number(hit[2]) === solve.out.at) return map(false, solve.reason);
      return map(true, solve.answers[Number(hit[2])]);
    };
  }

  worker() {
    const page = this;
    const init = this.inits.length ? this.inits.shift() : { kind: "ok", after: 5 };
    const worker = new dom.Target();
    Object.assign(worker, { id: this.workers.length, alive: true, ready: false, onmessage: null, init, busy: 0, asked: false });
    worker.terminate = () => {
      worker.alive = false;
    };
    const post = (after, data, what, solve) => {
      const when = Math.max(page.now + after, worker.busy);
      worker.busy = when;
      const fn = () => {
        if (!worker.alive) return;
        if (what === "init") worker.ready = true;
        worker._fire({ type: "message", data: data === null ? null : vm.runInContext(`(${JSON.stringify(data)})`, page.context) });
      };
      if (solve) page.at(when - page.now, () => ({ solve, last: true, worker, fn }), `solve${solve.k}!`);
      else page.at(when - page.now, () => ({ inited: worker, fn }), `worker${worker.id}`);
    };
    worker.postMessage = (msg) => {
      if (!worker.alive) return;
      if (msg.type === "init") {
        worker.asked = true;
        if (worker.init.kind === "never" || !msg.wasmUrl) page.count("engine download lost");
        else post(worker.init.after, null, "init");
      } else if (msg.type === "run") {
        page.options = msg.args[1];
        const hit = /^program (\d+)$/.exec(msg.args[0]);
        const solve = hit && page.solves[Number(hit[1])];
        if (!solve) return;
        solve.worker = worker;
        if (!worker.ready) {
          page.count("run before the engine is there");
          solve.early = true;
          return;
        }
        const text = Array.isArray(msg.args[1]) ? msg.args[1].join(" ") : String(msg.args[1] || "");
        const models = /(?:--models[= ]|-n ?)(\d+)/.exec(text);
        const limit = models ? Number(models[1]) || Infinity : 1;
        const kind = solve.out.kind;
        if (kind === "never") return;
        solve.answers = solve.answers.slice(0, limit);
        const time = { Total: 0.1, Solve: 0, Model: 0, Unsat: 0, CPU: 0.1 };
        const data =
          kind === "engine"
            ? { Result: "ERROR", Error: "bad program" }
            : kind === "none"
              ? { Result: "UNSATISFIABLE", Call: [{ Witnesses: [] }], Models: { Number: 0, More: "no" }, Time: time }
              : kind === "unknown"
                ? { Result: "UNKNOWN", Call: [{ Witnesses: [] }], Models: { Number: 0, More: "yes" }, Time: time }
                : {
                    Result: "SATISFIABLE",
                    Call: [{ Witnesses: solve.answers.map((_, i) => ({ Value: [`atom${solve.k}`, `model${i}`, ...fat(solve)] })) }],
                    Models: { Number: solve.answers.length, More: "no" },
                    Time: time,
                  };
        post(solve.out.head + solve.out.body, data, "run", solve);
      }
    };
    this.workers.push(worker);
    return worker;
  }

  // what the user sees
  el(id) {
    return this.document.getElementById(id);
  }

  see() {
    const on = (id) => (this.el(id) ? !this.el(id).disabled : false);
    return {
      board: this.content,
      dialogs: this.dialogs.length,
      label: this.el("solve") ? this.el("solve").textContent.trim() : "",
      solve: on("solve"),
      type: on("type"),
      example: on("example"),
      requests: this.requests.length,
    };
  }
}

class Bad extends Error {
  constructor(prop, cls, text) {
    super(text);
    this.prop = prop;
    this.cls = cls;
  }
}

// the user's session with its judges ---------------------------------------------------------------------------------
class Session {
  constructor(plan, sites) {
    this.page = new Page(plan, sites);
    this.plan = plan;
    this.phase = "idle";
    this.solve = null;
    this.ptr = 0;
    this.target = null;
    this.marks = new Set();
    this.events = 0;
    this.trace = [];
    this.solved = 0;
  }

  meta() {
    return JSON.parse(vm.runInContext("JSON.stringify(typeof solver_metadata === 'undefined' ? {} : solver_metadata)", this.page.context));
  }

  note(what) {
    const see = this.page.see();
    this.events++;
    this.marks.add(`${this.plan.mode} ${this.phase} ${what.replace(/\d+/g, "")}`);
    this.trace.push(`${this.page.now} ${what} -> ${this.phase} ${JSON.stringify(see)}`);
  }

  bad(prop, cls, text) {
    throw new Bad(prop, cls, text);
  }

  async run() {
    const { page, plan } = this;
    page.open();
    await page.flush();
    this.types = this.meta();
    this.names = Object.keys(this.types).sort();
    if (!this.names.length || !page.el("solve") || !page.el("type") || page.el("type").options.length < 2) {
      this.bad("ALL", "boot", `the page does not start: ${page.errors.slice(0, 2).join("; ").slice(0, 500)}`);
    }
    plan.acts.forEach((act) => {
      page.at(act.t, () => ({ act }), act.kind);
    });
    await this.drain();
    await this.settle();
  }

  async drain(limit = 4000) {
    const { page } = this;
    let idle = 0; // nothing but repeated timers for a while
    for (let i = 0; i < limit && page.queue.length && idle < 60; i++) {
      idle = page.queue.every((x) => x.label === "interval") ? idle + 1 : 0;
      let best = 0;
      for (let j = 1; j < page.queue.length; j++) {
        const [a, b] = [page.queue[j], page.queue[best]];
        if (a.t < b.t || (a.t === b.t && a.n < b.n)) best = j;
      }
      const [event] = page.queue.splice(best, 1);
      page.now = Math.max(page.now, event.t);
      const what = event.fn();
      if (what && what.act) await this.act(what.act);
      else if (what && what.fn) await this.delivered(what, event.label);
      else await page.flush();
    }
  }

  // everything works again: one Reset, one more solve
  async settle() {
    const { page } = this;
    page.inits = [];
    page.queue = [];
    for (let round = 0; round < 3; round++) {
      await this.act({ kind: "reset", init: { kind: "ok", after: 7 } });
      await this.drain();
      if (this.phase !== "idle") this.bad("C11", "recover", `Reset after all faults have ended leaves the page in: ${JSON.stringify(page.see())}`);
      if (page.deploy && !page.context.prepare_puzzle) page.bridge();
      if (!page.el("type").value) await this.act({ kind: "type", pick: 3 });
      await this.act({ kind: "edit", word: "", x: 77 + round });
      const board = page.content;
      await this.act({ kind: "solve", out: { kind: "ok", n: 2, head: 3, body: 2 } });
      const early = this.solve && this.solve.early && this.solve.worker.id === 0;
      await this.drain();
      if (early && this.phase !== "answered") continue; // the engine's first download had failed
      if (this.phase !== "answered") this.bad("C11", "recover", `a solve after Reset, without any fault, gives no answer: ${JSON.stringify(page.see())}`);
      await this.act({ kind: "solve", out: { kind: "ok", n: 1, head: 1, body: 1 } });
      await this.act({ kind: "solve", out: { kind: "ok", n: 1, head: 1, body: 1 } });
      await this.act({ kind: "reset", init: { kind: "ok", after: 7 } });
      await this.drain();
      if (this.phase !== "idle" || page.content !== board) this.bad("C11", "recover", `the last Reset does not restore the board: ${page.content} instead of ${board}`);
      return;
    }
    this.bad("C11", "recover", "no solve works any more although all faults have ended");
  }

  // user actions --------------------------------------------------------------------------------------------------
  async act(act) {
    const { page } = this;
    const handler = this[`do_${act.kind}`];
    await handler.call(this, act);
    this.note(act.kind);
  }

  choose(id, value) {
    const select = this.page.el(id);
    select.value = value;
    select.dispatchEvent(new dom.Event("change", { bubbles: true }));
  }

  async do_type(act) {
    const { page } = this;
    const select = page.el("type");
    if (select.disabled) return;
    const usable = select.options.map((x) => x.value).filter((x) => x !== "");
    const withParam = this.names.filter((x) => Object.keys(this.types[x].parameters).length);
    const name = act.param && withParam.length ? withParam[act.pick % withParam.length] : this.names[act.pick % this.names.length];
    if (!usable.includes(name)) this.bad("C20", "offer", `type ${name} cannot be chosen`);
    const before = page.see();
    this.choose("type", name);
    await page.flush();
    const after = page.see();
    if (after.board !== before.board) this.bad("C20", "type", `choosing type ${name} replaces the board`);
    if (after.requests !== before.requests) this.bad("C11", "request", "choosing a type sends a request");
    this.params(name, {}, `after choosing type ${name}`);
    for (const spec of Object.values(this.types[name].parameters)) {
      if (!page.el("parameter_box").textContent.replace(/\s+/g, "").includes(String(spec.name).replace(/\s+/g, ""))) {
        this.bad("C20", "param", `type ${name}: parameter ${spec.name} is not named`);
      }
    }
    const shown = page.el("example").options.map((x) => x.value).filter((x) => x !== "");
    if (shown.length !== this.types[name].examples.length) {
      this.bad("C20", "examples", `type ${name} has ${this.types[name].examples.length} examples, ${shown.length} are offered`);
    }
  }

  // the inputs show the type's own parameters with these values
  params(name, config, where) {
    const spec = this.types[name].parameters;
    for (const [key, value] of Object.entries(spec)) {
      const input = this.page.el(`param_${key}`);
      if (!input) this.bad("C20", "param", `${where}: parameter ${key} has no input`);
      const given = config && config[key] !== undefined ? config[key] : value.type === "select" ? Object.keys(value.default)[0] : value.default;
      const shown = value.type === "checkbox" ? input.checked : input.value;
      if (value.type === "checkbox" ? shown !== !!given : String(shown) !== String(given)) {
        this.bad("C20", "param", `${where}: parameter ${key} is ${JSON.stringify(shown)} instead of ${JSON.stringify(given)}`);
      }
    }
  }

  async do_example(act) {
    const { page } = this;
    const select = page.el("example");
    const type = page.el("type").value;
    if (select.disabled || !type || !this.types[type]) return;
    const list = this.types[type].examples;
    const pick = act.pick % (list.length + 1);
    if (pick === list.length) {
      this.choose("example", "");
      await page.flush();
      return;
    }
    const before = page.see();
    const options = select.options.filter((x) => x.value !== "");
    if (!options[pick]) this.bad("C20", "examples", `example ${pick + 1} of ${type} is not offered`);
    this.choose("example", options[pick].value);
    await page.flush();
    const example = list[pick];
    if (this.phase === "failed" || this.phase === "answered") this.phase = "idle";
    if (example.url) {
      const query = example.url.split("?").slice(1).join("?");
      const body = query.split("/").slice(1).join("/");
      const got = /^m=edit&p=I([0-9a-f]+)$/.exec(page.content);
      const shown = got ? Buffer.from(got[1], "hex").toString() : "";
      if (!body || shown.split("/").slice(1).join("/") !== body) {
        this.bad("C20", "example", `example ${pick + 1} of ${type} shows ${page.content.slice(0, 80)} instead of ${query.slice(0, 80)}`);
      }
    } else if (page.content !== example.data) {
      this.bad("C20", "example", `example ${pick + 1} of ${type} shows ${page.content.slice(0, 80)} instead of ${String(example.data).slice(0, 80)}`);
    }
    this.params(type, example.config, `example ${pick + 1} of ${type}`);
    const after = page.see();
    if (after.requests !== before.requests) this.bad("C11", "request", "choosing an example sends a request");
    if (this.phase === "idle" && !after.solve) this.bad("C20", "example", "after choosing an example the solve button is disabled");
  }

  async do_edit(act) {
    this.page.content = `m=edit&p=B${act.x.toString(36)}${act.word ? `x${act.word}Z${act.word}` : ""}q${this.page.counter++}/z+=`;
  }

  async do_import(act) {
    const { page } = this;
    const box = page.el("urlstring");
    const before = page.see();
    const payload = `m=edit&p=P${act.x}${act.name}/+=`;
    box.value =
      act.via === "url"
        ? `${act.host}${act.name}/10/10/${act.x}`
        : act.via === "penpa"
          ? `https://swaroopg92.github.io/penpa-edit/#${payload}`
          : act.via === "solve"
            ? `https://swaroopg92.github.io/penpa-edit/#m=solve&p=P${act.x}`
            : `nonsense ${act.x}`;
    page.el("load_url").click();
    await page.flush();
    const after = page.see();
    if (act.via === "penpa" && after.board !== payload) this.bad("C20", "import", `importing the board ${payload} gives ${after.board}`);
    if (act.via === "solve" && (after.board !== before.board || after.dialogs === before.dialogs)) {
      this.bad("C20", "import", "importing a board in solving mode is not refused with a message");
    }
    if (act.via === "bad" && after.board !== before.board) this.bad("C20", "import", "importing nonsense replaces the board");
    if (act.via === "url" && !/^https?:\/\/pzv/.test(act.host)) {
      const got = /^m=edit&p=I([0-9a-f]+)$/.exec(after.board);
      const shown = got ? Buffer.from(got[1], "hex").toString() : "";
      if (!shown.endsWith(`/10/10/${act.x}`)) this.bad("C20", "import", `importing ${box.value} gives ${shown || after.board}`);
    }
  }

  async do_param(act) {
    const { page } = this;
    const type = page.el("type").value;
    const keys = type && this.types[type] ? Object.keys(this.types[type].parameters) : [];
    if (!keys.length) return;
    const key = keys[act.pick % keys.length];
    const input = page.el(`param_${key}`);
    if (!input || input.disabled) return;
    const kind = this.types[type].parameters[key].type;
    if (kind === "checkbox") input.click();
    else if (kind === "select") input.value = input.options[act.x % input.options.length].value;
    else input.value = kind === "number" ? String(act.x) : `text${act.x}`;
    input.dispatchEvent(new dom.Event("change", { bubbles: true }));
    await page.flush();
  }

  async do_panel() {
    const { page } = this;
    const before = page.see();
    page.el("param").click();
    page.el("rules").click();
    await page.flush();
    const after = page.see();
    if (JSON.stringify(before) !== JSON.stringify(after)) this.bad("C11", "panel", "showing parameters or rules changes the session");
    const type = page.el("type").value;
    if (!type || !this.types[type] || !Object.keys(this.types[type].parameters).length) return;
    // the parameters of the chosen type can be shown and hidden
    const box = page.el("parameter_box");
    const state = () => JSON.stringify([box.style.display, !!box.hidden, box.className, box.parentNode.style.display, box.parentNode.className]);
    const first = state();
    page.el("param").click();
    await page.flush();
    if (page.el("param").disabled || state() === first) this.bad("C20", "param", `the parameters of ${type} cannot be shown and hidden`);
    page.el("param").click();
    await page.flush();
  }

  label() {
    const hit = /(\d+)\s*\/\s*(\d+\+?)/.exec(this.page.see().label);
    return hit ? [hit[1], hit[2]] : null;
  }

  shows(pos, where) {
    const answers = this.solve.answers;
    const see = this.page.see();
    const want = [String(pos + 1), answers.length === 10 ? "10+" : String(answers.length)];
    if (see.board !== answers[pos]) {
      const other = this.page.solves.find((s) => s.answers.includes(see.board));
      this.bad(other && other !== this.solve ? "C10" : "C11", "answer", `${where}: the board is ${see.board} instead of ${answers[pos]}`);
    }
    const got = this.label();
    if (!got || got[0] !== want[0] || got[1] !== want[1]) this.bad("C11", "label", `${where}: the button says "${see.label}" for answer ${want.join("/")}`);
    if (answers.length > 1 && !see.solve) this.bad("C11", "label", `${where}: the button is disabled with ${answers.length} answers`);
  }

  async do_solve(act) {
    const { page } = this;
    const button = page.el("solve");
    if (button.disabled) return;
    const before = page.see();
    const type = page.el("type").value;
    page.pendingOutcome = act.out;
    button.click();
    await page.flush();
    page.pendingOutcome = null;
    const after = page.see();
    const fresh = page.requests.slice(before.requests);
    if (!type) {
      if (fresh.length) this.bad("C11", "request", "a solve without a type sends a request");
      if (after.board !== before.board) this.bad("C11", "request", "a solve without a type replaces the board");
      if (after.dialogs === before.dialogs) this.bad("C11", "request", "a solve without a type is ignored silently");
      return;
    }
    if (this.phase === "answered") {
      if (type !== this.solve.type && !fresh.length) {
        this.bad("C10", "type", `with ${type} chosen, the button goes on with answers of ${this.solve.type}: ${after.label}`);
      }
      if (fresh.length) this.bad("C11", "page", "paging through the answers sends a request");
      this.ptr = (this.ptr + 1) % this.solve.answers.length;
      this.shows(this.ptr, `click for answer ${this.ptr + 1}`);
      page.count("answers paged");
      return;
    }
    if (this.phase === "resetting") this.phase = "idle";
    if (this.solve && this.phase === "solving") this.solve.state = "abandoned";
    if (page.deploy && !page.context.prepare_puzzle && !fresh.length) {
      page.count("solve before the bridge is there");
      if (after.dialogs === before.dialogs) this.bad("C11", "dialog", "a failing solve is not told to the user");
      if (after.board !== before.board) this.bad("C11", "board", "a failing solve replaces the board");
      this.solve = { k: -1, board: before.board, answers: [], state: "done", out: { kind: "nobridge" } };
      this.phase = "failed";
      return;
    }
    if (fresh.length !== 1) this.bad("C11", "request", `a click on "${before.label}" sends ${fresh.length} requests; ${page.errors.slice(-1)}`.slice(0, 300));
    const [req] = fresh;
    if (req.path !== "/api/solve/" || req.method !== "POST" || req.bad) this.bad("C11", "request", `the request is ${req.method} ${req.path} ${req.bad || ""}`);
    if (req.name !== type) this.bad("C11", "request", `the request is for ${req.name} instead of ${type}`);
    if (req.board !== before.board) this.bad("C11", "request", `the request has the board ${String(req.board).slice(0, 90)} instead of ${before.board.slice(0, 90)}`);
    for (const [key, spec] of Object.entries(this.types[type].parameters)) {
      const input = page.el(`param_${key}`);
      const want = spec.type === "checkbox" ? input.checked : input.value;
      const got = req.param ? req.param[key] : undefined;
      if (spec.type === "checkbox" ? got !== want : String(got) !== String(want)) {
        this.bad("C11", "request", `the request has parameter ${key} of ${type} = ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`);
      }
    }
    const foreign = Object.keys(req.param || {}).filter((key) => !(key in this.types[type].parameters));
    if (foreign.length) this.bad("C11", "request", `the request has parameter ${foreign[0]}, which ${type} does not have`);
    this.solve = req.solve;
    this.solve.board = before.board;
    this.solve.type = type;
    this.solve.dialogs = before.dialogs;
    this.phase = "solving";
    this.solved++;
    if (page.deploy && ["prep", "prepthrow", "gen"].includes(this.solve.out.kind)) this.over();
    else if (after.board !== before.board) this.bad("C11", "board", "starting a solve replaces the board");
  }

  // the current solve has come to its end
  over() {
    const { page, solve } = this;
    const see = page.see();
    const kind = solve.out.kind;
    solve.state = "done";
    if (kind === "ok" && solve.answers.length) {
      if (page.deploy && solve.early && solve.worker.id === 0) {
        this.phase = "failed";
        return;
      }
      this.phase = "answered";
      this.ptr = 0;
      const type = page.el("type").value;
      if (type !== solve.type) this.bad("C10", "type", `an answer of ${solve.type} is shown while ${type} is chosen`);
      this.shows(0, `answers of solve ${solve.k}`);
      return;
    }
    this.phase = "failed";
    if (see.dialogs === solve.dialogs) this.bad("C11", "dialog", `the outcome ${kind} is not told to the user`);
    const said = page.dialogs.slice(solve.dialogs).join(" ");
    if (["e400", "prep", "prepthrow", "gen", "store"].includes(kind) && !said.includes(solve.reason)) {
      this.bad("C11", "dialog", `the reason "${solve.reason}" is not told to the user: ${said.slice(0, 160)}`);
    }
    if (kind === "e504" && !/time.{0,20}(limit|out)|too long/i.test(said)) {
      this.bad("C11", "dialog", `the time limit is not told to the user: ${said.slice(0, 160)}`);
    }
    if (page.solves.some((s) => s.answers.includes(see.board)) && see.board !== solve.board && solve.seen !== see.board) {
      this.bad("C11", "board", `the outcome ${kind} puts ${see.board} on the board`);
    }
  }

  async delivered(what, label) {
    const { page } = this;
    const before = page.see();
    const early = what.inited && this.phase === "solving" && this.solve.early && this.solve.worker === what.inited;
    const current = what.solve && what.solve === this.solve && this.phase === "solving";
    if (current) this.solve.seen = before.board;
    what.fn();
    await page.flush();
    const after = page.see();
    if (what.solve && !current) {
      page.count("reply to an abandoned solve");
      if (JSON.stringify(before) !== JSON.stringify(after)) {
        this.bad("C10", "stale", `the reply to abandoned solve ${what.solve.k} changes ${diff(before, after)}; the page is in phase ${this.phase}`);
      }
    } else if (current) {
      if (what.last) {
        this.over();
        if (this.phase === "failed" && after.board !== before.board) this.bad("C11", "board", `a failed solve replaces the board by ${after.board}`);
      }
    } else if (what.inited) {
      if (early && after.dialogs > before.dialogs) {
        this.phase = "failed";
        this.solve.state = "done";
      } else if (this.phase === "resetting") this.restored(what.inited);
    }
    this.note(label);
  }

  async do_reset(act) {
    const { page } = this;
    const button = page.el("solver_reset");
    if (button.disabled) {
      if (this.phase !== "idle" && this.phase !== "resetting") this.bad("C11", "reset", `Reset is disabled in phase ${this.phase}`);
      return;
    }
    if (act.init) page.inits = [act.init];
    const made = page.workers.length;
    button.click();
    await page.flush();
    page.inits = [];
    if (this.phase === "idle") {
      const see = page.see();
      if (!see.type || !see.example || !see.solve) this.bad("C11", "reset", `Reset leaves controls locked: ${JSON.stringify(see)}`);
      return;
    }
    if (this.phase !== "resetting") {
      page.count(`Reset while ${this.phase}`);
      this.target = this.solve.board;
      this.solve.state = "abandoned";
      this.held = this.phase === "solving"; // what stays locked now is held by an abandoned solve
      this.phase = "resetting";
    }
    const waiting = page.workers.slice(made).filter((w) => w.asked && w.alive && !w.ready);
    this.restored(null, waiting);
  }

  restored(worker, waiting = []) {
    const { page } = this;
    const see = page.see();
    const unlocked = see.type && see.example && see.solve && see.label === "Solve";
    if (unlocked) {
      this.phase = "idle";
      if (see.board !== this.target) {
        const stale = page.solves.some((s) => s.answers.includes(see.board));
        this.bad("C11", "reset", `Reset leaves the board ${see.board.slice(0, 90)}${stale ? " (an answer)" : ""} instead of ${this.target.slice(0, 90)}`);
      }
      return;
    }
    if (page.deploy && waiting.length) return; // waits for the engine
    if (worker && worker !== page.workers[page.workers.length - 1]) return;
    this.bad(this.held ? "C10+C11" : "C11", "reset", `Reset leaves controls locked: ${JSON.stringify(see)}; ${page.errors.slice(-1)}`.slice(0, 400));
  }
}

function diff(a, b) {
  return Object.keys(a)
    .filter((k) => a[k] !== b[k])
    .map((k) => `${k} from ${JSON.stringify(a[k]).slice(0, 60)} to ${JSON.stringify(b[k]).slice(0, 60)}`)
    .join(", ");
}

async function simulate(plan, sites, prop) {
  const session = new Session(plan, sites);
  const violations = [];
  let other = null;
  try {
    await session.run();
  } catch (err) {
    if (!(err instanceof Bad)) throw err;
    if (err.prop.split("+").includes(prop) || err.prop === "ALL") violations.push({ class: err.cls, text: err.message });
    else other = `${err.prop} ${err.cls}: ${err.message}`;
    session.trace.push(`${session.page.now} ${err.prop} ${err.cls}: ${err.message}`);
  }
  const page = session.page;
  return {
    violations,
    other,
    digest: crypto.createHash("sha1").update(session.trace.join("\n")).digest("hex"),
    fired: page.fired,
    events: session.events,
    simulated: page.now / 1000,
    solves: session.solved,
    marks: [...session.marks],
    options: page.options,
    trace: session.trace,
    errors: page.errors,
  };
}

async function minimise(plan, sites, prop, cls) {
  const fails = async (cand) => {
    const res = await simulate(cand, sites, prop);
    return res.violations.some((x) => x.class === cls);
  };
  let best = plan;
  for (let size = Math.max(1, best.acts.length >> 1); size >= 1; size = size === 1 ? 0 : size >> 1) {
    for (let at = 0; at < best.acts.length; ) {
      const cand = { ...best, acts: best.acts.filter((_, i) => i < at || i >= at + size) };
      if (await fails(cand)) best = cand;
      else at += size;
    }
  }
  const trials = [
    (p) => ({ ...p, bridge: 0 }),
    (p) => ({ ...p, init: { kind: "ok", after: 0 } }),
    ...best.acts.flatMap((a, i) => {
      const swap = (b) => (p) => ({ ...p, acts: p.acts.map((x, j) => (j === i ? b(x) : x)) });
      const list = [];
      if (a.out) list.push(swap((x) => ({ ...x, out: { kind: "ok", n: 1, head: 1, body: 0 } })), swap((x) => ({ ...x, out: { ...x.out, n: x.out.n && Math.min(2, x.out.n), body: 0 } })));
      if (a.init) list.push(swap((x) => ({ ...x, init: { kind: "ok", after: 0 } })));
      if (a.word) list.push(swap((x) => ({ ...x, word: "" })));
      return list;
    }),
  ];
  for (const trial of trials) {
    const cand = trial(best);
    if (await fails(cand)) best = cand;
  }
  return best;
}

async function main() {
  const job = JSON.parse(fs.readFileSync(process.argv[2], "utf-8"));
  const say = (line) => fs.writeSync(1, JSON.stringify(line) + "\n");
  process.on("unhandledRejection", () => {}); // as in a browser: noted in the console only
  const plans = job.plans || job.seeds.map((seed) => makePlan(seed, job.modes || ["server", "deploy"]));
  let found = 0;
  for (let i = 0; i < plans.length; i++) {
    if (job.deadline && Date.now() / 1000 > job.deadline) {
      say({ kind: "cut", at: i });
      break;
    }
    const res = await simulate(plans[i], job.sites, job.prop);
    const line = { kind: "run", seed: job.seeds ? job.seeds[i] : null };
    if (job.twice && i < 3) line.repeat_ok = (await simulate(plans[i], job.sites, job.prop)).digest === res.digest;
    if (i === 0 && job.sample) line.sample = { plan: plans[i], trace: res.trace.slice(0, 12) };
    if (res.violations.length && found < 2) {
      found++;
      const small = job.replay ? plans[i] : await minimise(plans[i], job.sites, job.prop, res.violations[0].class);
      const again = await simulate(small, job.sites, job.prop);
      line.replay = { prop: job.prop, family: "page", plan: small, violations: again.violations, trace: again.trace, digest: again.digest };
    }
    if (!job.verbose) {
      delete res.trace;
      delete res.errors;
    }
    line.res = { ...res, nontrivial: res.solves > 0 && res.events > 8 };
    say(line);
    if (found >= 2) break;
  }
  say({ kind: "end", batches: 1 });
}

main().catch((err) => {
  fs.writeSync(1, JSON.stringify({ kind: "error", text: String(err && err.stack ? err.stack : err) }) + "\n");
  process.exitCode = 3;
});
