// A stand-in for the notebook page: loads roundtrip.js and runs the code the
// kernel sends, one JSON command per line.
const vm = require('vm'), fs = require('fs');
let ctx, acts, errs, running, timers, cells, selected, later;
function reset(file, n) {
  acts = []; errs = []; running = 0; timers = []; selected = 0; later = [];
  cells = [];
  for (let i = 0; i < n; i++) cells.push({ls: [], addEventListener(ev, f) { this.ls.push(f); }});
  const kernel = {execute(code, cb) { acts.push({exec: code}); }};
  const notebook = {
    kernel,
    get_cell_elements() { return cells; },
    get_selected_index() { return selected; },
    execute_cells(l) { acts.push({cells: Array.from(l)}); running += l.length; },
  };
  const d3 = {selectAll() { return {empty() { return running == 0; }}; }};
  const g = {Jupyter: {notebook}, IPython: {notebook},
             require(deps, f) { later.push(() => f(d3)); },
             document: {getElementById() { return {parentNode: {}}; }, documentElement: {matches() {}}},
             setTimeout(f) { timers.push(f); },
             console: {error(m) { errs.push(String(m)); }, log() {}}};
  g.window = g;
  ctx = vm.createContext(g);
  vm.runInContext(fs.readFileSync(file, 'utf8'), ctx);
}
// ---- the tree visualization: its model and controller, from the bundle or the sources
let model, dispatch;
const path = require('path'), cache = {};
function cut(text) {
  // the bundle up to the parts that draw
  const at = text.indexOf('CONCATENATED MODULE: ./scripts/utils/view.js');
  if (at < 0) throw new Error('no views in the bundle');
  return text.slice(0, text.lastIndexOf('\n', at)) + '\nwindow.VIS = {Model: cct_model, Controller: cct_controller, ' +
    'd3: build_d3, bin, hierarchy: hierarchy_hierarchy};\n})();\n})();';
}
function script(file, make) {
  if (!cache[file]) cache[file] = new vm.Script(make(fs.readFileSync(file, 'utf8')), {filename: file});
  return cache[file];
}
function source(file, lib, have) {
  if (!file.endsWith('.js')) file += '.js';
  if (have[file]) return have[file];
  const s = script(file, t => '(function (req, exports) {"use strict";' +
    t.replace(/^import\s+\*\s+as\s+(\w+)\s+from\s+(['"].*?['"]);?/gm, 'const $1 = req($2);')
     .replace(/^import\s+\{([^}]*)\}\s*from\s+(['"].*?['"]);?/gm, (_, l, m) => 'const {' + l.replace(/\s+as\s+/g, ': ') + '} = req(' + m + ');')
     .replace(/^import\s+(\w+)\s+from\s+(['"].*?['"]);?/gm, 'const $1 = req($2).default;')
     .replace(/^export\s+default\s+/gm, 'exports.default = ')
     .replace(/^export\s*\{([^}]*)\};?/gm, 'Object.assign(exports, {$1});')
     .replace(/^export\s+(const|let|var|function|class)\s+(\w+)/gm, 'exports.$2 = undefined; $1 $2') + '})');
  const e = have[file] = {};
  s.runInContext(ctx)(m => m.startsWith('.') ? source(path.resolve(path.dirname(file), m), lib, have) : lib, e);
  return e;
}
function start(v) {
  script(v.dir + '/static/cct_bundle.js', cut).runInContext(ctx);
  let V = ctx.VIS;
  if (v.source) {
    const lib = Object.assign({}, V.d3, {default: V.d3, bin: V.bin, hierarchy: V.hierarchy}), have = {};
    V = {Model: source(v.dir + '/scripts/cct/cct_model.js', lib, have).default,
         Controller: source(v.dir + '/scripts/cct/cct_controller.js', lib, have).default};
  }
  model = new V.Model();
  dispatch = new V.Controller(model).dispatcher();
  model.updateBins(v.bins);
}
const nid = n => n.data.metrics._hatchet_nid;
function walk(n, f) { f(n); for (const c of n.children || []) walk(c, f); }
function find(r) {
  let out = null;
  for (const t of model.forest.getTrees()) walk(t, n => {
    if (nid(n) === r[0] && Boolean(n.data.aggregate) === r[1]) out = n;
  });
  return out;
}
function shown() {
  const trees = [];
  for (const t of model.forest.getTrees()) {
    const items = [];
    const visit = (n, p) => {
      if (n.data.aggregate) {
        items.push({id: nid(n.data.prototype), up: p, agg: true, of: n.data.elided.map(nid), m: n.data.aggregateMetrics,
                    leaf: !(n.children && n.children.length)});
      } else items.push({id: nid(n), up: p, agg: false, of: [nid(n)], m: {}, leaf: false});
      for (const c of n.children || []) visit(c, nid(n));
    };
    visit(t, -1);
    trees.push(items);
  }
  const bins = (model.data.distCounts.nonzero || []).map(b => ({lo: b.x0, hi: b.x1, ids: Array.from(b, nid)}));
  return {trees, bins, menu: model.forest.rootNodeNames, metrics: model.forest.metricColumns,
          primary: model.state.primaryMetric, prune: model.state.pruneEnabled, tip: model.data.tipText};
}
function guard(f) {
  try { f(); } catch (e) { errs.push(String(e)); }
  while (later.length) { const h = later.shift(); try { h(); } catch (e) { errs.push(String(e)); } }
}
function snapshot(names) {
  const out = {};
  for (const n of names) {
    let v;
    try { v = ctx.window.Roundtrip[n]; } catch (e) { continue; }
    out[n] = typeof v === 'string' ? v : '(' + typeof v + ') ' + String(v);
  }
  return out;
}
require('readline').createInterface({input: process.stdin}).on('line', line => {
  const c = JSON.parse(line);
  if (c.reset) reset(c.reset, c.cells);
  acts = []; errs = [];
  if (c.run !== undefined) { if (c.cell !== undefined) selected = c.cell + 1; guard(() => vm.runInContext(c.run, ctx)); }
  if (c.js !== undefined) guard(() => {
    for (const f of cells[c.click].ls) f();
    ctx.window.Roundtrip[c.js] = c.text;
  });
  if (c.done !== undefined) {
    running = 0;
    const t = timers; timers = [];
    for (const f of t) guard(f);
  }
  let vis;
  if (c.vis) guard(() => start(c.vis));
  if (c.ev) guard(() => {
    const e = Object.assign({}, c.ev);
    if (e.node) e.node = Array.isArray(e.node[0]) ? e.node.map(find) : find(e.node);
    dispatch(e);
  });
  if (c.vis || c.ev) try { vis = shown(); } catch (e) { errs.push(String(e)); }
  process.stdout.write(JSON.stringify({acts, errs, js: snapshot(c.names || []), vis}) + '\n');
});
