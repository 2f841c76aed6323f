// Runs the model of the CCT viewer (hatchet/vis), as bundled and as in the source modules, without a browser.
// argv[2]: the directory hatchet/vis.  Lines in: {impl, lit, seqs}; lines out: a list of observations.
const fs = require('fs'), vm = require('vm'), path = require('path');
const VIS = process.argv[2];
const stub = new Proxy(function () { }, {
  get: (t, k) => k === Symbol.toPrimitive ? () => '' : stub, apply: () => stub, construct: () => stub, set: () => true,
});

function context() {
  const quiet = { log() { }, warn() { }, error() { } };
  const ctx = {
    EXPORTS: {}, window: { Roundtrip: {} }, document: stub, element: stub, navigator: stub, console: quiet,
    performance: { now: () => 0 }, setTimeout: () => 0,
  };
  ctx.self = ctx.window;
  return vm.createContext(ctx);
}

function bundle() {
  let s = fs.readFileSync(path.join(VIS, 'static', 'cct_bundle.js'), 'utf8');
  const ms = [...s.matchAll(/\b(?:var|let|const) (\w+) = new (\w+)\(\);?[^\n]*\s+(?:var|let|const) \w+ = new (\w+)\(\1\)/g)];
  const m = ms[ms.length - 1];
  const end = s.lastIndexOf('})();', s.lastIndexOf('})()') - 1);
  const want = { Model: m[2], Controller: m[3], globals: 'globals', d3: 'build_d3', hierarchy: 'hierarchy_hierarchy', bin: 'bin', Colors: 'cct_color_manager' };
  s = s.slice(0, m.index) + '\n' + Object.entries(want).map(([k, v]) => `if(typeof ${v}!=='undefined')EXPORTS.${k}=${v};`).join('') + s.slice(end);
  const ctx = context();
  vm.runInContext(s, ctx);
  return Object.assign({ RT: ctx.window.Roundtrip }, ctx.EXPORTS);
}

async function source(lib) {
  const ctx = context(), cache = {};
  const dir = path.join(VIS, 'scripts', 'cct');
  const packages = { d3v4: lib.d3, d3: lib.d3, 'd3-hierarchy': { hierarchy: lib.hierarchy }, 'd3-array': { bin: lib.bin } };
  const texts = fs.readdirSync(dir).filter(f => f.endsWith('.js')).map(f => fs.readFileSync(path.join(dir, f), 'utf8')).join('\n');
  function pkg(name) {
    if (!cache[name]) {
      const have = packages[name] || {}, names = new Set(Object.keys(have));
      for (const x of texts.matchAll(/import\s*\{([^}]*)\}\s*from\s*['"]([^'"]+)['"]/g))
        if (x[2] === name) x[1].split(',').forEach(n => n.trim() && names.add(n.trim().split(/\s+as\s+/)[0]));
      names.delete('default');
      const keys = [...names, 'default'];
      cache[name] = new vm.SyntheticModule(keys, function () { keys.forEach(k => this.setExport(k, k === 'default' ? have : k in have ? have[k] : stub)); },
        { context: ctx, identifier: name });
    }
    return cache[name];
  }
  function load(f) {
    if (!cache[f]) cache[f] = new vm.SourceTextModule(fs.readFileSync(f, 'utf8'), { context: ctx, identifier: f });
    return cache[f];
  }
  const linker = (spec, ref) => {
    if (!spec.startsWith('.')) return pkg(spec);
    const f = path.resolve(path.dirname(ref.identifier), spec);
    return load(fs.existsSync(f) ? f : f + '.js');
  };
  const out = { RT: ctx.window.Roundtrip };
  for (const [k, f] of [['Model', 'cct_model'], ['Controller', 'cct_controller'], ['globals', 'cct_globals'], ['Colors', 'cct_color_manager']]) {
    const m = load(path.join(dir, f + '.js'));
    if (m.status === 'unlinked') await m.link(linker);
    if (m.status !== 'evaluated') await m.evaluate();
    out[k] = k === 'globals' ? m.namespace.globals : m.namespace.default;
  }
  return out;
}

const nid = d => d.data.metrics._hatchet_nid;
const key = d => d.data.aggregate ? 's:' + d.data.elided.map(nid).sort((a, b) => a - b).join(',') : nid(d);
const displayed = m => m.forest.getTrees().flatMap(t => t.descendants());

function describe(d, parent) {
  const kids = (d.children || []).map(c => describe(c, d));
  const linked = parent === null ? !d.parent : d.parent === parent;
  if (!d.data.aggregate) return { id: nid(d), depth: d.depth, linked, kids, metrics: d.data.metrics, name: d.data.name };
  return { s: d.data.elided.map(e => describe(e, undefined)), depth: d.depth, linked, kids, agg: d.data.aggregateMetrics, proto: nid(d.data.prototype) };
}

function run(E, lit, seq) {
  E.RT.hatchet_tree_def = lit;
  const m = new E.Model(), c = new E.Controller(m), send = c.dispatcher(), S = E.globals.signals;
  let drawn = 0, rebuilt = 0, binned = false;
  m.register(() => { drawn++; if (m.state.hierarchyUpdated) rebuilt++; m.state.hierarchyUpdated = false; });
  const find = k => { const r = displayed(m).filter(d => String(key(d)) === String(k)); if (r.length !== 1) throw new Error(`${r.length} displayed nodes ${k}`); return r[0]; };
  const undrawn = [];
  const shades = seq.length && seq[0][0] === 'shades' ? m.forest.getTrees().map((t, i) => new E.Colors(m, i)) : null;
  const shade = () => shades.map((cm, i) => {
    const d = m.forest.getTrees()[i].descendants(), agg = d.filter(x => x.data.aggregate), own = d.filter(x => !x.data.aggregate);
    return {
      own: own.map(x => [nid(x), cm.calcColorScale(x.data)]), agg: agg.map(x => [x.data.aggregateMetrics[m.state.primaryMetric], cm.calcAggColorScale(x.data)]),
      legend: [cm.getColorLegend(i).slice(), cm.getLegendDomains(i)],
    };
  });
  m.updateBins(20);
  m.state.hierarchyUpdated = false;
  for (const a of seq) {
    const n = drawn, h = rebuilt, before = JSON.stringify(m.forest.getTrees().map(t => describe(t, null)));
    if (a[0] === 'shades') continue;
    if (a[0] === 'dbl') send({ type: S.COLLAPSESUBTREE, node: find(a[1]) });
    else if (a[0] === 'comp') send({ type: S.COMPOSEINTERNAL, node: find(a[1]) });
    else if (a[0] === 'range') send({ type: S.PRUNERANGEUPDATE, low: a[1], high: a[2] });
    else if (a[0] === 'metric') { send({ type: S.METRICCHANGE, newMetric: a[1], source: a[2] }); if (a[2] === 'primary') binned = true; }
    else if (a[0] === 'colors') send({ type: S.COLORCLICK, value: a[1] });
    else if (a[0] === 'legend') send({ type: S.LEGENDCLICK, value: a[1] });
    else if (a[0] === 'enable') send({ type: S.ENABLEMASSPRUNE, threshold: 1.5 });
    else if (a[0] === 'click') send({ type: S.CLICK, node: a[1].map(find) });
    else if (a[0] === 'brush') send({ type: S.BRUSH, selection: a[1] === null ? null : a[1].map(find) });
    else if (a[0] === 'snapshot') send({ type: S.SNAPSHOT });
    else throw new Error('unknown action ' + a[0]);
    const changed = before !== JSON.stringify(m.forest.getTrees().map(t => describe(t, null)));
    if (a[0] !== 'snapshot' && drawn === n || changed && rebuilt === h) undrawn.push(a);
    if (shades) shade(); // drawn after every action
    if (a[0] !== 'metric' && a[0] !== 'click' && a[0] !== 'brush') binned = false;
  }
  const o = {
    trees: m.forest.getTrees().map(t => describe(t, null)), undrawn, tip: m.data.tipText,
    names: [...m.forest.rootNodeNames], primary: m.state.primaryMetric, secondary: m.state.secondaryMetric,
    metrics: [...m.forest.metricColumns], ranges: m.forest.forestMetrics, all: m.forest.forestMinMax, agg: m.forest.aggregateMinMax,
    prune: [m.state.prune_range.low, m.state.prune_range.high],
  };
  if (binned) {
    const b = m.data.distCounts;
    o.bins = b.nonzero.map((x, i) => [x.x0, x.x1, x.map(nid), b.internalzero[i].map(nid)]);
  }
  if (shades) o.shades = shade();
  send({ type: S.SNAPSHOT });
  o.query = E.RT.jsNodeSelected;
  return o;
}

(async () => {
  const impls = {};
  impls.bundle = bundle();
  impls.source = await source(impls.bundle);
  process.stdout.write(JSON.stringify('ready') + '\n');
  const rl = require('readline').createInterface({ input: process.stdin });
  for await (const line of rl) {
    const r = JSON.parse(line);
    const out = r.seqs.map(seq => { try { return run(impls[r.impl], r.lit, seq); } catch (e) { return { error: String(e && e.stack || e).split('\n').slice(0, 3).join(' | ') }; } });
    process.stdout.write(JSON.stringify(out, (k, v) => v === undefined ? null : typeof v === 'number' && !isFinite(v) ? String(v) : v) + '\n');
  }
})();
