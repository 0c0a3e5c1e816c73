// Evaluates start-up scripts of the page: reads [{kind, text}] and prints what each does.
const vm = require("vm");

function element(tag) {
  const el = { tag, attrs: {} };
  el.setAttribute = (k, v) => {
    el.attrs[k] = String(v);
  };
  el.getAttribute = (k) => (k in el.attrs ? el.attrs[k] : null);
  return el;
}

function describe(el) {
  const out = { ...el.attrs };
  for (const key of Object.keys(el)) {
    if (["attrs", "tag", "setAttribute", "getAttribute"].includes(key)) continue;
    out[key] = String(el[key]);
  }
  return [el.tag, out];
}

function evaluate(item) {
  const added = [];
  const parent = {
    appendChild: (el) => added.push(describe(el)),
    append: (...els) => els.forEach((el) => added.push(describe(el))),
    insertBefore: (el) => added.push(describe(el)),
  };
  const context = vm.createContext({
    document: { createElement: element, head: parent, body: parent },
    console: { log() {}, warn() {}, error() {} },
  });
  const run = (text) => vm.runInContext(text, context, { timeout: 5000 });
  run(item.text);
  if (item.kind === "metadata") {
    return { value: JSON.parse(run("JSON.stringify(solver_metadata)")) };
  }
  return { mode: run("ENABLE_DEPLOYMENT"), added };
}

const items = JSON.parse(require("fs").readFileSync(0, "utf-8"));
console.log(
  JSON.stringify(
    items.map((item) => {
      try {
        return evaluate(item);
      } catch (err) {
        return { error: String(err) };
      }
    }),
  ),
);
