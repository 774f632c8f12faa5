// A small document model: executes the scripts of a page in document order, then clicks at elements.
"use strict";
const vm = require("vm");
const input = JSON.parse(require("fs").readFileSync(0, "utf-8"));
let clipboard = null;
const errors = [];
const elements = new Map();
const windowListeners = [];
function element(e) {
  const listeners = [], classes = new Set(e.cls);
  return { id: e.id, style: {}, dataset: {}, scrollHeight: 1000 + e.n, textContent: e.text, innerText: e.text, onclick: null, inline: e.onclick, listeners,
    addEventListener(kind, f) { if (kind === "click") listeners.push(f); },
    classList: { toggle(c) { if (classes.has(c)) { classes.delete(c); return false; } classes.add(c); return true; }, add(c) { classes.add(c); }, remove(c) { classes.delete(c); }, contains(c) { return classes.has(c); } },
    classes };
}
for (const e of input.items) if (e.tag !== "script") elements.set(e.n, element(e));
// an element is found once the page is loaded up to it
let loaded = -1;
function byId(id) {
  for (const [n, e] of elements) if (e.id === id && n <= loaded) return e;
  return null;
}
const ctx = { document: { getElementById: byId, addEventListener(k, f) { windowListeners.push(f); } }, navigator: { clipboard: { writeText(t) { clipboard = t; return Promise.resolve(); } } }, console: { log() {} } };
ctx.window = ctx;
ctx.addEventListener = (k, f) => windowListeners.push(f);
vm.createContext(ctx);
function run(f) { try { f(); } catch (e) { errors.push(String(e)); } }
for (const e of input.items) {
  loaded = e.n;
  if (e.tag === "script") run(() => vm.runInContext(e.text, ctx, { timeout: 5000 }));
}
loaded = 1 << 30;
for (const f of windowListeners) run(() => f({}));
function state() {
  const s = [], heads = input.items.filter(e => e.cls.includes("collapsible_header"));
  for (const e of input.items) if (e.cls.includes("collapsible_content")) s.push([elements.get(e.n).style.maxHeight || null, elements.get(heads[s.length].n).classes.has("collapsible_header_opened")]);
  return s;
}
const history = [state()];
for (const n of input.clicks) {
  if (n < 0) { // the window is resized: every content has another height
    for (const [k, e] of elements) e.scrollHeight = 1000 * -n + k;
    history.push([state(), null]);
    continue;
  }
  const e = elements.get(n);
  clipboard = null;
  if (e.inline) run(() => vm.runInContext(e.inline, ctx, { timeout: 5000 }));
  if (e.onclick) run(() => e.onclick.call(e, {}));
  for (const f of e.listeners) run(() => f.call(e, {}));
  history.push([state(), clipboard]);
}
process.stdout.write(JSON.stringify({ errors, history }));
