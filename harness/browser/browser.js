// A small browser: a DOM with events, and windows in which a page's scripts run.  It is driven by lines
// of JSON on standard input; every command gets one line in reply.  WebSockets are not connected here: what
// a page opens, sends and closes is reported, and what the driver passes in is delivered.
'use strict';
const vm = require('vm'), readline = require('readline');

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
class DOMException_ extends Error {}
const fail = (m) => { throw new DOMException_(m); };

class EventTarget_ {
    constructor() { this._l = []; this._lw = 0; }
    addEventListener(type, f, opt) {
        if (f === null || f === undefined) return;
        const capture = typeof opt === 'object' && opt ? !!opt.capture : !!opt, once = typeof opt === 'object' && opt ? !!opt.once : false;
        type = String(type);
        if (this._l.some((x) => x.type === type && x.f === f && x.capture === capture)) return;
        const entry = { type, f, capture, once };
        this._l.push(entry);
        this._lw++;
        if (typeof opt === 'object' && opt && opt.signal) opt.signal.addEventListener('abort', () => { this._l = this._l.filter((x) => x !== entry); });
    }
    removeEventListener(type, f, opt) {
        const capture = typeof opt === 'object' && opt ? !!opt.capture : !!opt;
        if (this._l.some((x) => x.type === String(type) && x.f === f && x.capture === capture)) this._lw++;
        this._l = this._l.filter((x) => !(x.type === String(type) && x.f === f && x.capture === capture));
    }
    _call(e, capture) {
        e.currentTarget = this;
        const own = this['on' + e.type];
        const entries = this._l.filter((x) => x.type === e.type && (capture === null || x.capture === capture));
        if (typeof own === 'function' && capture !== true && own.call(this, e) === false) e.preventDefault();
        for (const x of entries) {
            if (!this._l.includes(x)) continue;
            if (x.once) this._l = this._l.filter((y) => y !== x);
            if (typeof x.f === 'function') x.f.call(this, e); else x.f.handleEvent(e);
            if (e._now) return;
        }
    }
    dispatchEvent(e) {
        e.target = this;
        const path = [];
        for (let p = this.parentNode; p; p = p.parentNode) path.push(p);
        for (const p of path.slice().reverse()) { if (e._stop) break; p._call(e, true); }
        if (!e._stop) this._call(e, null);
        if (e.bubbles) for (const p of path) { if (e._stop) break; p._call(e, false); }
        return !e.defaultPrevented;
    }
}
class Event_ {
    constructor(type, init = {}) {
        this.type = String(type); this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable;
        this.defaultPrevented = false; this.target = this.currentTarget = null;
        this._stop = this._now = false;
    }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._now = true; }
    get srcElement() { return this.target; }
}

let nodes = 0;
class Node_ extends EventTarget_ {
    constructor(doc) { super(); this._u = ++nodes; this.ownerDocument = doc; this.childNodes = []; this.parentNode = null; }
    get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get _at() { return this.parentNode ? this.parentNode.childNodes.indexOf(this) : -1; }
    get nextSibling() { return this.parentNode ? this.parentNode.childNodes[this._at + 1] || null : null; }
    get previousSibling() { return this.parentNode ? this.parentNode.childNodes[this._at - 1] || null : null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    insertBefore(n, ref) {
        if (!(n instanceof Node_)) throw new TypeError('parameter 1 is not of type Node');
        if (ref === undefined) ref = null;
        if (n.contains(this)) fail('HierarchyRequestError');
        if (ref !== null && ref.parentNode !== this) fail('NotFoundError: the node before which the new node is to be inserted is not a child of this node');
        if (this instanceof Text_) fail('HierarchyRequestError');
        if (n instanceof Fragment_) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
        if (ref === n) ref = n.nextSibling;
        if (n.parentNode) n.parentNode._drop(n);
        const at = ref === null ? this.childNodes.length : this.childNodes.indexOf(ref);
        this.childNodes.splice(at, 0, n);
        n.parentNode = this;
        return n;
    }
    _drop(n) { this.childNodes.splice(this.childNodes.indexOf(n), 1); n.parentNode = null; }
    appendChild(n) { return this.insertBefore(n, null); }
    removeChild(n) {
        if (!(n instanceof Node_)) throw new TypeError('parameter 1 is not of type Node');
        if (n.parentNode !== this) fail('NotFoundError: the node to be removed is not a child of this node');
        this._drop(n);
        return n;
    }
    replaceChild(n, old) {
        if (!(n instanceof Node_) || !(old instanceof Node_)) throw new TypeError('not a Node');
        if (old.parentNode !== this) fail('NotFoundError: the node to be replaced is not a child of this node');
        if (n === old) return old;
        this.insertBefore(n, old);
        this._drop(old);
        return old;
    }
    _nodes(xs) { return xs.map((x) => (x instanceof Node_ ? x : this.ownerDocument.createTextNode(x))); }
    append(...xs) { this._nodes(xs).forEach((x) => this.appendChild(x)); }
    prepend(...xs) { const f = this.firstChild; this._nodes(xs).forEach((x) => this.insertBefore(x, f)); }
    replaceChildren(...xs) { this.childNodes.slice().forEach((c) => this._drop(c)); this.append(...xs); }
    before(...xs) { if (this.parentNode) this._nodes(xs).forEach((x) => this.parentNode.insertBefore(x, this)); }
    after(...xs) { if (this.parentNode) { const r = this.nextSibling; this._nodes(xs).forEach((x) => this.parentNode.insertBefore(x, r)); } }
    replaceWith(...xs) { if (this.parentNode) { const p = this.parentNode, r = this.nextSibling; p._drop(this); this._nodes(xs).forEach((x) => p.insertBefore(x, r)); } }
    remove() { if (this.parentNode) this.parentNode._drop(this); }
    normalize() {
        for (const c of this.childNodes.slice()) {
            if (c instanceof Text_) {
                if (c.data === '') c.remove();
                else if (c.previousSibling instanceof Text_) { c.previousSibling.data += c.data; c.remove(); }
            } else c.normalize();
        }
    }
    get textContent() { return this.childNodes.map((c) => c.textContent).join(''); }
    set textContent(v) {
        this.childNodes.slice().forEach((c) => this._drop(c));
        if (v !== null && v !== undefined && String(v) !== '') this.appendChild(this.ownerDocument.createTextNode(v));
    }
    get children() { return this.childNodes.filter((c) => c instanceof Element_); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    *_all() { for (const c of this.childNodes) if (c instanceof Element_) { yield c; yield* c._all(); } }
    _select(sel) {
        const m = /^(?:([\w-]+|\*))?(?:#([\w\\-]+))?(?:\[([\w-]+)\s*=\s*["']?([^"'\]]*)["']?\])?$/.exec(String(sel).trim());
        if (!m) fail('SyntaxError: selector ' + sel);
        const id = m[2] && m[2].replace(/\\3(\d) ?/g, '$1').replace(/\\/g, '');
        return (e) => (!m[1] || m[1] === '*' || e.localName === m[1].toLowerCase()) && (!id || e.getAttribute('id') === id) && (!m[3] || e.getAttribute(m[3]) === m[4]);
    }
    querySelectorAll(sel) { const f = this._select(sel), r = []; for (const e of this._all()) if (f(e)) r.push(e); return r; }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    getElementsByTagName(n) { return this.querySelectorAll(n); }
}
class Text_ extends Node_ {
    constructor(doc, data) { super(doc); this._d = String(data); this._dw = 0; }
    get data() { return this._d; }
    set data(v) { this._d = v === null ? '' : String(v); this._dw++; }
    get nodeType() { return 3; }
    get nodeName() { return '#text'; }
    get textContent() { return this.data; }
    set textContent(v) { this.data = v === null ? '' : String(v); }
    get nodeValue() { return this.data; }
    set nodeValue(v) { this.data = v === null ? '' : String(v); }
    get length() { return this.data.length; }
    cloneNode() { return new Text_(this.ownerDocument, this.data); }
}
class Fragment_ extends Node_ {
    get nodeType() { return 11; }
    get nodeName() { return '#document-fragment'; }
    cloneNode(deep) { const f = new Fragment_(this.ownerDocument); if (deep) this.childNodes.forEach((c) => f.appendChild(c.cloneNode(true))); return f; }
}
class Attr_ {
    constructor(el, name, value) { this.ownerElement = el; this.name = name; this._v = value; }
    get value() { return this._v; }
    set value(v) { this._v = String(v); if (this.ownerElement) this.ownerElement._w.push(this.name); }
    get nodeName() { return this.name; }
    get localName() { return this.name; }
    get nodeValue() { return this._v; }
    set nodeValue(v) { this.value = v; }
    get specified() { return true; }
}
class Attrs_ extends Array {
    static get [Symbol.species]() { return Array; }
    item(i) { return this[i] || null; }
    getNamedItem(n) { return this.find((a) => a.name === String(n).toLowerCase()) || null; }
    removeNamedItem(n) { const i = this.findIndex((a) => a.name === String(n).toLowerCase()); if (i < 0) fail('NotFoundError'); return this.splice(i, 1)[0]; }
    setNamedItem(a) { const o = this.getNamedItem(a.name); if (o) this[this.indexOf(o)] = a; else this.push(a); return o; }
}
const NAME = /^[^\s"'<>\/=\u0000]+$/;
class Element_ extends Node_ {
    constructor(doc, name) { super(doc); this.localName = name; this._w = []; this.attributes = new Attrs_(); }
    get nodeType() { return 1; }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get nodeValue() { return null; }
    getAttribute(n) { const a = this.attributes.getNamedItem(n); return a ? a.value : null; }
    hasAttribute(n) { return this.attributes.getNamedItem(n) !== null; }
    hasAttributes() { return this.attributes.length > 0; }
    getAttributeNames() { return this.attributes.map((a) => a.name); }
    getAttributeNode(n) { return this.attributes.getNamedItem(n); }
    setAttributeNode(a) { a.ownerElement = this; this._w.push(a.name); return this.attributes.setNamedItem(a); }
    setAttribute(n, v) {
        n = String(n).toLowerCase();
        if (!NAME.test(n)) fail('InvalidCharacterError: attribute ' + n);
        const a = this.attributes.getNamedItem(n);
        if (a) a.value = v; else { this._w.push(n); this.attributes.push(new Attr_(this, n, String(v))); }
    }
    removeAttribute(n) { const i = this.attributes.findIndex((a) => a.name === String(n).toLowerCase()); if (i >= 0) { this._w.push(this.attributes[i].name); this.attributes.splice(i, 1); } }
    toggleAttribute(n, on) { const has = this.hasAttribute(n); if (on === undefined) on = !has; if (on && !has) this.setAttribute(n, ''); if (!on) this.removeAttribute(n); return on; }
    get id() { return this.getAttribute('id') || ''; }
    set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') || ''; }
    set className(v) { this.setAttribute('class', v); }
    get value() { return this._value !== undefined ? this._value : this.getAttribute('value') || ''; }
    set value(v) { this._value = String(v); }
    matches(sel) { return this._select(sel)(this); }
    closest(sel) { for (let e = this; e instanceof Element_; e = e.parentNode) if (e.matches(sel)) return e; return null; }
    get nextElementSibling() { const c = this.parentNode ? this.parentNode.children : []; return c[c.indexOf(this) + 1] || null; }
    get previousElementSibling() { const c = this.parentNode ? this.parentNode.children : []; return c[c.indexOf(this) - 1] || null; }
    cloneNode(deep) {
        const e = new Element_(this.ownerDocument, this.localName);
        for (const a of this.attributes) e.setAttribute(a.name, a.value);
        if (deep) this.childNodes.forEach((c) => e.appendChild(c.cloneNode(true)));
        return e;
    }
    insertAdjacentElement(where, e) {
        switch (String(where).toLowerCase()) {
            case 'beforebegin': this.parentNode.insertBefore(e, this); break;
            case 'afterbegin': this.insertBefore(e, this.firstChild); break;
            case 'beforeend': this.appendChild(e); break;
            case 'afterend': this.parentNode.insertBefore(e, this.nextSibling); break;
            default: fail('SyntaxError');
        }
        return e;
    }
    insertAdjacentText(where, t) { this.insertAdjacentElement(where, this.ownerDocument.createTextNode(t)); }
    insertAdjacentHTML(where, html) { for (const n of parse(this.ownerDocument, html, this)) this.insertAdjacentElement(where, n); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this.childNodes.map(html).join(''); }
    set innerHTML(v) { this.replaceChildren(...parse(this.ownerDocument, v === null ? '' : String(v), this)); }
    get outerHTML() { return html(this); }
    set outerHTML(v) { this.replaceWith(...parse(this.ownerDocument, String(v), this.parentNode)); }
    click() { this.dispatchEvent(new Event_('click', { bubbles: true, cancelable: true })); }
    focus() {}
    blur() {}
}
class Document_ extends Node_ {
    constructor() {
        super(null);
        this.documentElement = this.appendChild(this.createElement('html'));
        this.head = this.documentElement.appendChild(this.createElement('head'));
        this.body = this.documentElement.appendChild(this.createElement('body'));
        this.readyState = 'complete';
    }
    get nodeType() { return 9; }
    get nodeName() { return '#document'; }
    createElement(n) { n = String(n).toLowerCase(); if (!/^[a-z][^\s\/>\u0000]*$/.test(n)) fail('InvalidCharacterError: element ' + n); return new Element_(this, n); }
    createTextNode(d) { return new Text_(this, d); }
    createDocumentFragment() { return new Fragment_(this); }
    createAttribute(n) { return new Attr_(null, String(n).toLowerCase(), ''); }
    createEvent() { const e = new Event_(''); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = b; e.cancelable = c; }; return e; }
    importNode(n, deep) { return n.cloneNode(deep); }
    getElementById(id) { id = String(id); for (const e of this._all()) if (id !== '' && e.getAttribute('id') === id) return e; return null; }
}

// ---- HTML text -------------------------------------------------------------------------------------------
const esc = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
function html(n) {
    if (n instanceof Text_) return esc(n.data);
    const as = n.attributes.map((a) => ` ${a.name}="${a.value.replace(/&/g, '&amp;').replace(/"/g, '&quot;')}"`).join('');
    return `<${n.localName}${as}>` + (VOID.has(n.localName) ? '' : n.childNodes.map(html).join('') + `</${n.localName}>`);
}
const unesc = (s) => s.replace(/&(#x?[0-9a-f]+|amp|lt|gt|quot|apos|nbsp);/gi, (m, x) =>
    x[0] === '#' ? String.fromCodePoint(x[1].toLowerCase() === 'x' ? parseInt(x.slice(2), 16) : parseInt(x.slice(1), 10))
        : { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' }[x.toLowerCase()]);
const CLOSES_P = new Set(['p', 'div', 'form', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'table', 'section', 'pre']);
const HEADING = /^h[1-6]$/;
function parse(doc, text, context) {
    const root = new Fragment_(doc), open = [root];
    const top = () => open[open.length - 1];
    const close = (n) => { const i = open.findLastIndex((e) => e.localName === n); if (i > 0) open.length = i; };
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][^\s\/>]*)((?:\s+[^\s"'<>\/=]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'=<>`]+))?)*)\s*(\/?)>|[^<]+|</gi;
    for (let m; (m = re.exec(text)); ) {
        if (m[2] === undefined) {
            if (!/^<(!--|!d)/i.test(m[0])) top().appendChild(new Text_(doc, unesc(m[0])));
            continue;
        }
        const name = m[2].toLowerCase();
        if (m[1]) { close(name); continue; }
        if (CLOSES_P.has(name)) close('p');
        if (HEADING.test(name) && HEADING.test(top().localName || '')) open.pop();
        if (name === 'form' && (open.some((e) => e.localName === 'form') || (context && context.closest && context.closest('form')))) continue;
        if (name === 'a') close('a');
        const e = new Element_(doc, name);
        for (const a of m[3].matchAll(/([^\s"'<>\/=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'=<>`]+)))?/g)) {
            if (!e.hasAttribute(a[1])) e.setAttribute(a[1], unesc(a[2] ?? a[3] ?? a[4] ?? ''));
        }
        top().appendChild(e);
        if (!VOID.has(name)) open.push(e);
    }
    return root.childNodes.slice();
}

// ---- windows ----------------------------------------------------------------------------------------------
const pages = new Map();

class Page {
    constructor(url) {
        const page = this;
        this.sockets = [];
        this.sent = [];
        this.errors = [];
        this.doc = new Document_();
        class WebSocket_ extends EventTarget_ {
            constructor(u, protocols) {
                super();
                this.url = new URL(u, url).href.replace(/^http/, 'ws');
                this.readyState = 0;
                this.bufferedAmount = 0; this.protocol = ''; this.extensions = ''; this.binaryType = 'blob';
                this._asked = protocols === undefined ? [] : [].concat(protocols);
                page.sockets.push(this);
            }
            send(d) {
                if (this.readyState === 0) fail('InvalidStateError: still in CONNECTING state');
                if (this.readyState === 1) page.sent.push({ s: page.sockets.indexOf(this), d: typeof d === 'string' ? d : null });
            }
            close() { if (this.readyState < 2) { this.readyState = 2; page.sent.push({ s: page.sockets.indexOf(this), close: true }); } }
            _is(type, more) { const e = new Event_(type); Object.assign(e, more); e.target = this; this._call(e, null); }
        }
        Object.assign(WebSocket_, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        Object.assign(WebSocket_.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        const u = new URL(url);
        const w = new EventTarget_();
        const quiet = () => {};
        this.win = w;
        this.timers = [];
        Object.assign(w, {
            document: this.doc, WebSocket: WebSocket_, Event: Event_, CustomEvent: Event_, EventTarget: EventTarget_, Node: Node_, Element: Element_, HTMLElement: Element_,
            Text: Text_, DocumentFragment: Fragment_, DOMException: DOMException_,
            location: { href: u.href, protocol: u.protocol, host: u.host, hostname: u.hostname, port: u.port, pathname: u.pathname, search: u.search, hash: u.hash, origin: u.origin, toString: () => u.href, reload: quiet },
            console: { log: quiet, warn: quiet, error: quiet, info: quiet, debug: quiet, trace: quiet, group: quiet, groupEnd: quiet, time: quiet, timeEnd: quiet },
            navigator: { userAgent: 'verif' }, URL, URLSearchParams, TextEncoder, TextDecoder, AbortController, structuredClone,
            setTimeout: (f, ms, ...a) => this.timers.push(() => f(...a)), clearTimeout: quiet, setInterval: () => 0, clearInterval: quiet,
            requestAnimationFrame: (f) => this.timers.push(() => f(0)), queueMicrotask: (f) => this.timers.push(f),
            CSS: { escape: (s) => String(s).replace(/^\d/, (d) => '\\3' + d + ' ') },
        });
        w.window = w.self = w.globalThis = w;
        w.WebSocket = WebSocket_;
        this.doc.defaultView = w;
        this.doc.location = w.location;
        vm.createContext(w);
    }
    run(f) {
        try { f(); } catch (e) { this.errors.push(String((e && e.stack) || e).slice(0, 600)); }
        for (let i = 0; i < 1000 && this.timers.length; i++) {
            const t = this.timers.shift();
            try { t(); } catch (e) { this.errors.push(String((e && e.stack) || e).slice(0, 600)); }
        }
    }
    took() { const r = { sent: this.sent, errors: this.errors }; this.sent = []; this.errors = []; return r; }
}

const TYPES = ['click', 'submit', 'input'];
const PROBE = 'probe';
// what an element shows, with what it sends when events happen to it
function shown(p, n) {
    const lead = [], rest = [];
    let kids = 0;
    for (const c of n.childNodes) {
        if (c instanceof Text_) (kids ? rest : lead).push(c.data); else kids++;
    }
    const l = [];
    for (const type of TYPES) {
        const was = n._value;
        n._value = PROBE;
        const before = p.sent.length, errs = p.errors.length;
        p.run(() => n.dispatchEvent(Object.assign(new Event_(type, { bubbles: true, cancelable: true }))));
        n._value = was;
        for (const x of p.sent.splice(before)) l.push([type, x.d === undefined ? null : x.d]);
        for (const x of p.errors.splice(errs)) l.push([type, 'error: ' + x]);
    }
    // which node it is, and what was written to it since the last look
    const u = { u: n._u, w: [...new Set(n._w)], tu: n.childNodes.filter((c) => c instanceof Text_).map((c) => [c._u, c._dw]), lw: n._lw };
    n._w = []; n._lw = 0;
    for (const c of n.childNodes) if (c instanceof Text_) c._dw = 0;
    return { ...u, n: n.localName, id: n.getAttribute('id'), a: n.attributes.filter((a) => a.name !== 'id').map((a) => [a.name, a.value]), t: lead.join(''), x: rest.join(''), l,
        k: n.children.map((c) => shown(p, c)) };
}

function command(c) {
    if (c.c === 'parse') {   // the scripts of a page
        const doc = new Document_();
        return { scripts: parse(doc, c.html, null).flatMap((n) => (n instanceof Element_ ? [n, ...n._all()] : [])).filter((e) => e.localName === 'script' && e.hasAttribute('src')).map((e) => new URL(e.getAttribute('src'), c.url).href) };
    }
    if (c.c === 'open') {
        const p = new Page(c.url);
        pages.set(c.p, p);
        p.run(() => vm.runInContext(c.script, p.win, { filename: 'page.js', timeout: 5000 }));
        return { sockets: p.sockets.map((s) => s.url), ...p.took() };
    }
    const p = pages.get(c.p);
    if (c.c === 'forget') { pages.delete(c.p); return {}; }
    const s = p.sockets[0];
    if (c.c === 'up') {
        s.readyState = 1;
        p.run(() => s._is('open', {}));
        return p.took();
    }
    if (c.c === 'msg') {
        p.run(() => s._is('message', { data: c.data, origin: s.url }));
        const r = p.took();
        if (c.look) { r.dom = p.doc.body.children.map((e) => shown(p, e)); r.stray = p.doc.body.childNodes.filter((n) => n instanceof Text_).map((n) => n.data).join(''); }
        return r;
    }
    if (c.c === 'down') {
        s.readyState = 3;
        p.run(() => s._is('close', { code: 1000, wasClean: true }));
        return p.took();
    }
    if (c.c === 'fire') {
        const all = [];
        for (const e of p.doc.body.children) all.push(e, ...e._all());
        const e = all[c.at];
        if (!e) return { ...p.took(), missing: true };
        if (c.v !== undefined && c.v !== null) e.value = c.v;
        p.run(() => e.dispatchEvent(new Event_(c.e, { bubbles: true, cancelable: true })));
        return p.took();
    }
    return { error: 'command' };
}

readline.createInterface({ input: process.stdin, terminal: false }).on('line', (line) => {
    let r;
    try { r = command(JSON.parse(line)); } catch (e) { r = { broken: String(e.stack || e) }; }
    process.stdout.write(JSON.stringify(r) + '\n');
});
