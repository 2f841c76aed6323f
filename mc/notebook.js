// Front end of a notebook, as far as roundtrip.js sees it.  One JSON command per line on stdin, one answer per line.
'use strict';
const vm = require('vm');
let ctx = null, st = null;

function reset(cmd) {
    const listeners = [];
    const cells = [];
    for (let i = 0; i < cmd.cells; i++) {
        cells.push({addEventListener: (ev, f) => { listeners[i].push(f); }});
        listeners.push([]);
    }
    st = {acts: [], errs: [], running: new Set(), deferred: [], timers: [], selected: 0, listeners, order: cmd.order,
          html: cells.map(() => ''), now: null};
    const elements = {length: cells.length};
    cells.forEach((c, i) => { elements[i] = c; });
    const nb = {
        get_cell_elements: () => elements,
        get_selected_index: () => st.selected,
        kernel: {execute: (code, cb) => { st.acts.push(['kernel', code]); }},
        execute_cells: (ids) => {
            ids = Array.from(ids);
            ids.forEach((i) => st.running.add(i));
            st.acts.push(['cells', ids]);
        },
    };
    const d3 = {selectAll: (sel) => ({empty: () => sel !== '.running' || st.running.size === 0})};
    const sandbox = {
        Jupyter: {notebook: nb}, IPython: {notebook: nb},
        require: (mods, cb) => { if (st.order === 'sync') cb(d3); else st.deferred.push(() => cb(d3)); },
        setTimeout: (f) => { st.timers.push(f); },
        console: {log() {}, warn() {}, error(...a) { st.errs.push(a.join(' ')); }},
        seen: [],
    };
    sandbox.window = sandbox;
    sandbox.document = {getElementById: (id) => {
        // the first element of the page (in the order of the cells) with this id
        const i = st.html.findIndex((h) => h.includes('id="' + id + '"'));
        return i < 0 ? null : {parentNode: {cell: i}};
    }};
    ctx = vm.createContext(sandbox);
    st.ev = vm.runInContext('(function(__code, element){ return eval(__code); })', ctx);
}

function guard(f) { try { return f(); } catch (e) { st.errs.push(String(e && e.stack || e).split('\n').slice(0, 3).join(' | ')); } }

function settle() {
    // callbacks of require, then timers (a timer may arm itself again: one round per message)
    const d = st.deferred; st.deferred = [];
    d.forEach((f) => guard(f));
    const t = st.timers; st.timers = [];
    t.forEach((f) => guard(f));
}

function handle(c) {
    if (c.reset) { reset(c); }
    if (c.click !== undefined) { st.listeners[c.click].forEach((f) => guard(() => f())); }
    if (c.selected !== undefined) { st.selected = c.selected; }
    if (c.start !== undefined) { st.running.add(c.start); }
    if (c.done !== undefined && c.run === undefined) { st.running.delete(c.done); }
    if (c.cell !== undefined) { st.html[c.cell] = ''; }
    for (const [kind, text] of c.run || []) {
        if (kind === 'js') { guard(() => st.ev(text, {cell: c.cell})); }
        else if (c.cell !== undefined) {
            st.html[c.cell] += text;
            for (const m of text.matchAll(/<script[^>]*>([\s\S]*?)<\/script>/g)) { guard(() => vm.runInContext(m[1], ctx)); }
        }
        if (st.order !== 'idle') settle();
    }
    if (c.set) {
        ctx.__k = c.set[0]; ctx.__v = c.set[1];
        guard(() => st.ev('window.Roundtrip[__k] = __v', {}));
    }
    if (c.get) {
        c.out = {};
        for (const k of c.get) {
            ctx.__k = k;
            try { c.out[k] = st.ev('window.Roundtrip[__k]', {}); } catch (e) { c.out[k] = null; }
        }
    }
    if (!c.reset) settle();
    if (c.done !== undefined) { st.running.delete(c.done); }
    const seen = JSON.parse(JSON.stringify(ctx.seen)); ctx.seen.length = 0;
    const r = {acts: st.acts, errs: st.errs, out: c.out, seen, busy: st.timers.length + st.deferred.length};
    st.acts = []; st.errs = [];
    if (c.parse !== undefined) {
        try { ctx.__k = c.parse; r.parsed = JSON.stringify(JSON.parse(st.ev('window.Roundtrip[__k]', {}))); }
        catch (e) { r.errs.push(String(e)); }
    }
    return r;
}

let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (chunk) => {
    buf += chunk;
    let i;
    while ((i = buf.indexOf('\n')) >= 0) {
        const line = buf.slice(0, i); buf = buf.slice(i + 1);
        let r;
        try { r = handle(JSON.parse(line)); } catch (e) { r = {driver: String(e && e.stack || e)}; }
        process.stdout.write(JSON.stringify(r) + '\n');
    }
});
process.stdin.on('end', () => process.exit(0));
