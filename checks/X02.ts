// X02: the HTTP server of the echo example, over the loopback network.
// Run by run.py, bundled; argv: options as one JSON object.
import * as assert from 'node:assert';
import * as crypto from 'node:crypto';
import * as fs from 'node:fs';
import * as http from 'node:http';
import * as net from 'node:net';
import fc from 'fast-check';

type Options = {
    property: string; seed: number; tier: string; bundle: string; known: string[]; out?: string; replay_out?: string; replay?: string;
};
const opt: Options = JSON.parse(process.argv[2]);
// Inputs of findings listed in known_findings.txt are left out of the search; each has a reproduction of its own.
const open = (tag: string) => opt.known.includes(`${opt.property}-${tag}`);

const RULE = 'servers with lists of prefixes get requests over the loopback network, on connections of their own or shared, bodies cut into chunks '
    + 'anywhere; a target behind the proxy records what it gets and answers, or fails before, in or after its answer; clients go away in '
    + 'the middle; non-trivial: a request with a body in two chunks or more reached a handler or the target, or something failed';

// The code under test, with its servers known to the check.
const servers: http.Server[] = [];
function load(): any {
    const mine = (name: string) => {
        const m = require(name);
        if (name === 'http' || name === 'node:http') {
            return {...m, createServer: (...a: any[]) => {
                const s = (m.createServer as any)(...a);
                servers.push(s);
                return s;
            }};
        }
        return m;
    };
    return new Function('require', fs.readFileSync(opt.bundle, 'utf8') + '\nreturn HTTP_UNDER_TEST;')(mine);
}
const code = load();
let LIMIT = 10000;

let uncaught: any = null;
process.on('uncaughtException', (e) => { uncaught = uncaught || e; });
process.on('unhandledRejection', (e) => { uncaught = uncaught || e; });

// ---- what a case was
let nontrivial = new Set<string>();
let samples: string[] = [];
let labels: Record<string, number> = {};
let evaluations = 0;
function count(test: string, what: string | null, ls: string[]) {
    ++evaluations;
    for (const l of new Set(ls)) {
        labels[`${test}/${l}`] = (labels[`${test}/${l}`] || 0) + 1;
    }
    if (what !== null) {
        const h = crypto.createHash('md5').update(what).digest('latin1');
        if (!nontrivial.has(h)) {
            nontrivial.add(h);
            if (samples.filter((s) => s.startsWith(test)).length < 3) {
                samples.push(`${test}: ${what.substring(0, 1500)}`);
            }
        }
    }
}

const soon = <T>(p: Promise<T>, what: string): Promise<T> => {
    let alarm: any;
    return Promise.race([p, new Promise<T>((_, no) => { alarm = setTimeout(() => no(new Error(`no end of ${what}`)), LIMIT); })])
        .finally(() => clearTimeout(alarm));
};
const quiet = {debug() {}, info() {}, warn() {}, error() {}, log() {}};

async function start(prefixes: any[]): Promise<{server: http.Server; port: number}> {
    const s = new code.HTTPServer(quiet, prefixes);
    await s.listen(0);
    const server = servers.pop()!;
    if (!server.listening) {
        await soon(new Promise((yes) => server.once('listening', yes)), 'listening');
    }
    return {server, port: (server.address() as any).port};
}
async function stop(server: http.Server) {
    server.closeAllConnections();
    await new Promise((yes) => server.close(yes));
}

// ---- a client of one connection which sends exactly these pieces
type Answer = {status: number; headers: Record<string, string | string[]>; body: Buffer; whole: boolean};
type Sent = {method: string; url: string; headers: Record<string, string>; body: Buffer[] | null; leave: boolean};
function ask(port: number, r: Sent, agent: http.Agent | undefined): Promise<Answer | null> {
    return soon(new Promise((yes) => {
        const req = http.request({host: '127.0.0.1', port, method: r.method, path: r.url, headers: r.headers, agent: agent || false}, (res) => {
            const got: Buffer[] = [];
            const end = (whole: boolean) => yes({status: res.statusCode!, headers: res.headers as any, body: Buffer.concat(got), whole});
            res.on('data', (d) => got.push(d));
            res.on('end', () => end(true));
            res.on('error', () => end(false));
            res.on('close', () => end(res.complete));
        });
        req.on('error', () => yes(null));
        (async () => {
            for (const c of r.body || []) {
                await new Promise((go) => req.write(c, () => go(undefined)));
                if (req.destroyed) {
                    return;
                }
            }
            if (r.leave) {
                await new Promise((go) => setTimeout(go, 3));
                req.destroy();
            } else {
                req.end();
            }
        })();
    }), `${r.method} ${r.url}`);
}

// ---- generators
const cut = fc.array(fc.nat(100000), {maxLength: 4});
function pieces(b: Buffer, cuts: number[]): Buffer[] {
    const at = [...new Set(cuts.map((c) => c % (b.length + 1)))].filter((c) => c > 0 && c < b.length).sort((x, y) => x - y);
    return [...at, b.length].map((e, i) => b.subarray(i ? at[i - 1] : 0, e)).filter((x) => x.length);
}
// Under this finding no character may be cut: not by the client, nor, for its length, on the way.
const whole = open('split-char');
function between(b: Buffer, cuts: number[]): number[] {
    return cuts.map((c) => {
        let at = c % (b.length + 1);
        while (whole && at > 0 && at < b.length && (b[at] & 0xC0) === 0x80) {
            --at;
        }
        return at;
    });
}
const words = fc.oneof(
    {weight: 2, arbitrary: fc.string({unit: fc.constantFrom(...'ab"\\ {}[],:\n'.split('')), maxLength: 10})},
    {weight: 2, arbitrary: fc.string({unit: fc.constantFrom('é', 'я', '€', '漢', '😀', 'a', '\u2028', '\u0000', '\ufeff'), maxLength: 12})},
    {weight: 1, arbitrary: fc.integer({min: 0, max: 40000}).map((n) => 'x€'.repeat(n / 2))});
const clean = (x: any) => JSON.parse(JSON.stringify(x));
const json = fc.oneof(
    {weight: 3, arbitrary: fc.record({sdp: words, n: fc.integer()})},
    {weight: 1, arbitrary: fc.dictionary(fc.constantFrom('a', 'é', '', 'candidate'), words, {maxKeys: 3})},
    {weight: 1, arbitrary: fc.constantFrom<any>(null, [], {}, 'text', 17, [1, {a: null}])}).map(clean);
const url = fc.tuple(fc.array(fc.constantFrom('a', 'ab', 'api', 'x-y', '%41', '~u', 'a.b', ''), {maxLength: 4}), fc.constantFrom('', '?', '?q=1', '?a=b&c=%20d', '?/a'))
    .map(([p, q]) => '/' + p.join('/') + q);
const prefix = fc.constantFrom('/', '/a', '/ab', '/a/', '/api', '/api/x-y', '/x', '');
const method = fc.constantFrom('GET', 'POST', 'PUT', 'DELETE');
const xheaders = fc.dictionary(fc.constantFrom('x-one', 'x-two', 'accept', 'cookie', 'if-none-match', 'user-agent'),
    fc.string({unit: fc.constantFrom(...'ab;=,/ "*'.split('')), maxLength: 8}).map((s) => 'v' + s.trim()), {maxKeys: 4});
const clients = fc.constantFrom('own', 'shared');

type Outcome = {kind: 'ok'; answer: any} | {kind: 'error'; code: number; description: string} | {kind: 'throw'} | {kind: 'reject'};
const outcome: fc.Arbitrary<Outcome> = fc.oneof(
    {weight: 4, arbitrary: fc.record({kind: fc.constant('ok' as const), answer: fc.record({sdp: words, candidates: fc.array(words, {maxLength: 2})}).map(clean)})},
    {weight: 2, arbitrary: fc.record({kind: fc.constant('error' as const), code: fc.integer({min: 400, max: 599}), description: words})},
    {weight: 1, arbitrary: fc.record({kind: fc.constantFrom('throw' as const, 'reject' as const)})});

// ---- requests to handlers
const request = fc.record({
    method, url,
    type: fc.oneof({weight: 6, arbitrary: fc.constant<string | null>('application/json')}, {weight: 1, arbitrary: fc.constantFrom<string | null>('text/plain', null, 'application/jsonx')}),
    body: fc.oneof({weight: 5, arbitrary: json.map((v) => {
        const t = JSON.stringify(v);
        return whole && t.length > 1000 ? t.replace(/[^\0-\x7f]/g, (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0')) : t;
    })}, {weight: 1, arbitrary: fc.constantFrom('', '{', '{"a":}', 'nul', '"', '[1,]', '{}{}')}),
    cuts: cut, sized: fc.boolean(), out: outcome, late: fc.boolean(), leave: fc.nat(11).map((n) => n === 0)});
type Request = {method: string; url: string; type: string | null; body: string; cuts: number[]; sized: boolean; out: Outcome; late: boolean; leave: boolean};
const handled = fc.record({
    prefixes: fc.array(fc.record({method: fc.constantFrom('GET', 'POST', 'POST', 'POST', 'PUT'), prefix}), {maxLength: 5}),
    requests: fc.array(request, {minLength: 1, maxLength: 5}), client: clients, together: fc.boolean()});

function model(prefixes: any[], r: Request): {which: number; status: number; body: string | null; arg?: any} {
    const which = prefixes.findIndex((p) => p.method === r.method && r.url.startsWith(p.prefix));
    if (which < 0) {
        return {which, status: 404, body: null};
    }
    if (r.type !== 'application/json') {
        return {which: -1, status: 406, body: null};
    }
    let arg: any;
    try {
        arg = JSON.parse(r.body);
    } catch (e) {
        return {which: -1, status: 400, body: null};
    }
    switch (r.out.kind) {
    case 'ok': return {which, status: 200, body: JSON.stringify(r.out.answer), arg};
    case 'error': return {which, status: r.out.code, body: r.out.description, arg};
    case 'throw': return {which, status: -1, body: null, arg};       // 400 or 500
    case 'reject': return {which, status: 500, body: null, arg};
    }
}

let probing = false;     // a known finding is looked at
async function handle(c: {prefixes: any[]; requests: Request[]; client: string; together: boolean}) {
    uncaught = null;
    const calls: {which: number; arg: any; tag: string}[] = [];
    const byArg = new Map<string, Request>();
    // Requests are told apart by the answer the handler has ready for them.
    let queue: Request[] = [];
    const {server, port} = await start(c.prefixes.map((p, which) => ({method: p.method, prefix: p.prefix, action: {type: 'process-json', handler: (arg: any) => {
        const key = JSON.stringify(arg);
        const i = queue.findIndex((q) => { try { return JSON.stringify(JSON.parse(q.body)) === key && model(c.prefixes, q).which === which; } catch (e) { return false; } });
        calls.push({which, arg, tag: key});
        const r = i < 0 ? null : queue.splice(i, 1)[0];
        const o: Outcome = r ? r.out : {kind: 'reject'};
        if (o.kind === 'throw') {
            throw new Error('thrown by the handler');
        }
        const result = async () => {
            if (r && r.late) {
                await new Promise((go) => setTimeout(go, 1));
            }
            if (o.kind === 'reject') {
                throw new Error('refused by the handler');
            }
            return o.kind === 'ok' ? {result: 'ok', answer: o.answer} : {result: 'error', code: (o as any).code, description: (o as any).description};
        };
        return result();
    }}})));
    const agent = c.client === 'shared' ? new http.Agent({keepAlive: true, maxSockets: 1}) : undefined;
    const ls: string[] = [];
    let interesting = false;
    try {
        const send = async (r: Request) => {
            const b = Buffer.from(r.body, 'utf8');
            const parts = pieces(b, probing ? r.cuts : between(b, r.cuts));
            const headers: Record<string, string> = {};
            if (r.type !== null) {
                headers['content-type'] = r.type;
            }
            if (r.sized) {
                headers['content-length'] = String(b.length + (r.leave ? 1 : 0));
            } else {
                headers['transfer-encoding'] = 'chunked';
            }
            const a = await ask(port, {method: r.method, url: r.url, headers, body: parts, leave: r.leave}, agent);
            return {r, a, parts: parts.length};
        };
        const check = ({r, a, parts}: {r: Request; a: Answer | null; parts: number}) => {
            const m = model(c.prefixes, r);
            const what = `${r.method} ${r.url} ${r.type} ${JSON.stringify(r.body.substring(0, 200))} in ${parts} pieces, ${JSON.stringify(r.out).substring(0, 200)}`;
            if (r.leave) {
                ls.push('left');
                assert.ok(a === null || m.which < 0, `an answer ${a && a.status} to the unfinished ${what}`);
                interesting = true;
                return;
            }
            assert.ok(a !== null && a.whole, `no whole answer to ${what}`);
            if (m.status === -1) {
                assert.ok(a!.status === 400 || a!.status === 500, `status ${a!.status} of ${what}`);
            } else {
                assert.strictEqual(a!.status, m.status, `status of ${what}`);
            }
            if (m.body !== null) {
                assert.strictEqual(a!.body.toString('utf8'), m.body, `body of the answer to ${what}`);
            }
            ls.push(`status ${m.status >= 400 && r.out.kind === 'error' && m.which >= 0 ? 'of handler' : m.status}`);
            interesting = interesting || (m.which >= 0 && parts > 1);
        };
        if (c.together && !agent) {
            queue = c.requests.filter((r) => !r.leave);
            const all = await Promise.all(c.requests.map(send));
            // Outcomes of requests with the same body can go either way round.
            const same = new Map<string, number>();
            const key = (r: Request) => { const m = model(c.prefixes, r); return m.which < 0 ? '' : m.which + JSON.stringify(m.arg); };
            all.forEach(({r}) => same.set(key(r), (same.get(key(r)) || 0) + 1));
            all.forEach((x) => { if (key(x.r) === '' || x.r.leave || same.get(key(x.r)) === 1) { check(x); } });
            ls.push('together');
        } else {
            for (const r of c.requests) {
                queue = r.leave ? [] : [r];
                check(await send(r));
            }
        }
        const expected = c.requests.filter((r) => !r.leave).map((r) => model(c.prefixes, r)).filter((m) => m.which >= 0)
            .map((m) => JSON.stringify([m.which, m.arg])).sort();
        assert.deepStrictEqual(calls.map((x) => JSON.stringify([x.which, x.arg])).sort(), expected, 'calls of handlers');
        assert.strictEqual(uncaught, null, `uncaught: ${uncaught && uncaught.stack}`);
    } finally {
        agent && agent.destroy();
        await stop(server);
    }
    count('handled', interesting ? JSON.stringify(c) : null, ls);
}

// ---- requests handed on to a target
type Fault = 'none' | 'closed' | 'reset' | 'before' | 'in body' | 'early';
const passing = fc.record({
    method, url, headers: xheaders, body: fc.option(words, {nil: null}),
    more: fc.oneof({weight: 8, arbitrary: fc.constant(0)}, {weight: 1, arbitrary: fc.integer({min: 1, max: 4000000})}), cuts: cut, sized: fc.boolean(), leave: open('cut-request') ? fc.constant(false) : fc.nat(9).map((n) => n === 0),
    fault: fc.oneof({weight: 5, arbitrary: fc.constant<Fault>('none')}, {weight: 3, arbitrary: fc.constantFrom<Fault>('closed', 'reset', 'before',
        ...(open('cut-answer') || open('late-error') ? [] : ['in body' as Fault, 'early' as Fault]))}),
    status: fc.constantFrom(200, 200, 201, 302, 404, 500, 503), answerHeaders: xheaders, answer: words, answerCuts: cut, answerSized: fc.boolean()});
type Passing = {more: number; method: string; url: string; headers: Record<string, string>; body: string | null; cuts: number[]; sized: boolean; leave: boolean; fault: Fault;
    status: number; answerHeaders: Record<string, string>; answer: string; answerCuts: number[]; answerSized: boolean};
const proxied = fc.record({requests: fc.array(passing, {minLength: 1, maxLength: 4}), client: clients, base: fc.constantFrom('', '/base')})
    .map((c) => open('unread-rest') && c.requests.some((r) => r.fault !== 'none') ? {...c, client: 'own'} : c);

// A port nobody listens on, below those the system gives out.
async function closedPort(): Promise<number> {
    for (let p = 1; p < 1024; ++p) {
        const refused = await new Promise((yes) => {
            const s = net.connect(p, '127.0.0.1', () => { s.destroy(); yes(false); });
            s.on('error', (e: any) => yes(e.code === 'ECONNREFUSED'));
        });
        if (refused) {
            return p;
        }
    }
    throw new Error('no closed port');
}
let hport = 0;

async function proxy(c: {requests: Passing[]; client: string; base: string}) {
    uncaught = null;
    // What the target gets, by the name the request carries.
    const known: Passing[] = [...c.requests,
        {...c.requests[0], more: 0, method: 'GET', url: '/end', body: null, leave: false, fault: 'none', status: 200, answer: 'end', answerHeaders: {}}];
    const seen: {id: number; method: string; url: string; headers: any; body: Buffer; whole: boolean}[] = [];
    let pending = 0;
    const target = http.createServer((req, res) => {
        const id = Number(req.headers['x-id']);
        const mine = known[id];
        const parts: Buffer[] = [];
        const entry = {id, method: req.method!, url: req.url!, headers: req.headers, body: Buffer.alloc(0), whole: false};
        seen.push(entry);
        if (mine.fault === 'reset') {
            req.socket.destroy();
            return;
        }
        if (mine.fault === 'early') {       // answers without waiting for the request
            res.writeHead(mine.status, {connection: 'close', ...(mine.answerSized ? {'content-length': String(5 + mine.answer.length % 2)} : {})});
            res.write('early');
            if (!mine.answerSized) {
                res.end();
            }
            setTimeout(() => mine.sized ? req.socket.destroy() : req.socket.resetAndDestroy(), mine.cuts.length * 3);
            req.on('error', () => {});
            return;
        }
        ++pending;
        req.on('data', (d) => parts.push(d));
        req.on('error', () => {});
        req.on('close', () => { --pending; });
        req.on('end', async () => {
            entry.body = Buffer.concat(parts);
            entry.whole = req.complete;
            if (mine.fault === 'before') {
                req.socket.destroy();
                return;
            }
            const b = Buffer.from(mine.answer, 'utf8');
            res.on('error', () => {});
            const h: Record<string, string> = {...mine.answerHeaders};
            if (mine.answerSized || mine.fault === 'in body') {
                h['content-length'] = String(b.length + (mine.fault === 'in body' ? 1 : 0));
            }
            res.writeHead(mine.status, h);
            for (const p of pieces(b, mine.answerCuts)) {
                await new Promise((go) => res.write(p, () => go(undefined)));
            }
            if (mine.fault === 'in body') {
                res.flushHeaders();
                setTimeout(() => req.socket.destroy(), 2);
                return;
            }
            res.end();
        });
    });
    await new Promise<void>((yes) => target.listen(0, '127.0.0.1', () => yes()));
    const tport = (target.address() as any).port;
    hport = hport || await closedPort();
    const {server, port} = await start([
        {method: 'OPTIONS', prefix: '/', action: {type: 'proxy', target: `http://127.0.0.1:${hport}`}},
        ...['GET', 'POST', 'PUT', 'DELETE'].flatMap((m) => [
            {method: m, prefix: '/gone/', action: {type: 'proxy', target: `http://127.0.0.1:${hport}${c.base}`}},
            {method: m, prefix: '/', action: {type: 'proxy', target: `http://127.0.0.1:${tport}${c.base}`}}])]);
    const agent = c.client === 'shared' ? new http.Agent({keepAlive: true, maxSockets: 1}) : undefined;
    const ls: string[] = [];
    let interesting = false;
    try {
        for (const [id, r] of c.requests.entries()) {
            const url = (r.fault === 'closed' ? '/gone' : '') + r.url;
            const b = r.body === null ? null : Buffer.from(r.body + 'y'.repeat(r.more), 'utf8');
            const parts = b === null ? null : pieces(b, r.cuts);
            const headers: Record<string, string> = {...r.headers, 'x-id': String(id)};
            if (b !== null || r.leave) {
                if (r.sized) {
                    headers['content-length'] = String((b || []).length + (r.leave ? 1 : 0));
                } else {
                    headers['transfer-encoding'] = 'chunked';
                }
            }
            const what = `${r.method} ${url} ${JSON.stringify(headers)}, ${r.fault}${r.leave ? ', left' : ''}, body of ${b ? b.length : 'no'} in ${parts ? parts.length : 0}`;
            const a = await ask(port, {method: r.method, url, headers, body: parts, leave: r.leave}, agent);
            ls.push(r.leave ? 'left' : `fault ${r.fault}`);
            const got = seen.filter((g) => g.id === id);
            if (r.leave) {
                interesting = true;     // judged in the end
            } else if (r.fault === 'closed' || r.fault === 'reset' || r.fault === 'before') {
                assert.ok(a !== null && a.whole, `no whole answer to ${what}`);
                assert.ok(a!.status >= 500, `status ${a!.status} of ${what}`);
                interesting = true;
            } else if (r.fault === 'in body') {
                assert.ok(a === null || !a.whole, `a cut answer is passed on as a whole one: ${what}`);
                interesting = true;
            } else if (r.fault === 'early') {
                assert.ok(a === null || !a.whole || a.status === r.status || a.status >= 500, `status ${a && a.status} of ${what}`);
                assert.ok(a === null || !a.whole || a.status >= 500 || !r.answerSized || r.answer.length % 2 === 0, `a cut answer is passed on as a whole one: ${what}`);
                interesting = true;
            } else {
                assert.ok(a !== null && a.whole, `no whole answer to ${what}`);
                assert.strictEqual(a!.status, r.status, `status of ${what}`);
                assert.strictEqual(a!.body.toString('utf8'), r.answer, `body of the answer to ${what}`);
                for (const [k, v] of Object.entries(r.answerHeaders)) {
                    assert.strictEqual(a!.headers[k], v, `header ${k} of the answer to ${what}`);
                }
                assert.strictEqual(got.length, 1, `requests to the target for ${what}`);
                const g = got[0];
                assert.ok(g.whole, `the target did not get all of ${what}`);
                assert.strictEqual(g.method, r.method, `method of ${what}`);
                assert.strictEqual(g.url, c.base + r.url.replace(/\?$/, ''), `path of ${what}`);
                assert.ok(g.body.equals(b || Buffer.alloc(0)), `body of ${what}`);
                for (const [k, v] of Object.entries(r.headers)) {
                    assert.strictEqual(g.headers[k], v, `header ${k} of ${what}`);
                }
                interesting = interesting || (parts || []).length > 1;
            }
            assert.strictEqual(uncaught, null, `uncaught after ${what}: ${uncaught && uncaught.stack}`);
        }
        // Still alive.
        const a = await ask(port, {method: 'GET', url: '/end', headers: {'x-id': String(c.requests.length)}, body: null, leave: false}, undefined);
        assert.ok(a !== null && a.status === 200 && a.body.toString() === 'end', 'the server does not answer any more');
        // The target may see some of a request its client left, but never as if it were all.
        const since = Date.now();
        while (pending > 0 && Date.now() - since < LIMIT) {
            await new Promise((go) => setTimeout(go, 2));
        }
        assert.strictEqual(pending, 0, 'the target waits for the rest of a request left by its client');
        for (const g of seen) {
            assert.ok(!known[g.id].leave || !g.whole, `the target got as a whole request the unfinished ${g.method} ${g.url}`);
        }
        assert.strictEqual(uncaught, null, `uncaught: ${uncaught && uncaught.stack}`);
    } finally {
        agent && agent.destroy();
        await stop(server);
        await stop(target);
    }
    count('proxied', interesting ? JSON.stringify(c) : null, ls);
}

// The findings: what fails of each, on one input. (What these record has no bearing on the outcome of the check.)
const aRequest: Request = {method: 'POST', url: '/', type: 'application/json', body: '"é"', cuts: [2], sized: false, out: {kind: 'ok', answer: {}}, late: false, leave: false};
const aPassing: Passing = {more: 0, method: 'POST', url: '/', headers: {}, body: 'x', cuts: [], sized: false, leave: false, fault: 'none', status: 200, answerHeaders: {}, answer: 'ok',
    answerCuts: [], answerSized: false};
const one = (r: Partial<Passing>) => ({requests: [{...aPassing, ...r}], client: 'own', base: ''});
const reproductions: Record<string, () => Promise<void>> = {
    'split-char': () => handle({prefixes: [{method: 'POST', prefix: '/'}], requests: [aRequest], client: 'own', together: false}),
    'cut-answer': () => proxy(one({fault: 'in body'})),
    'cut-request': () => proxy(one({leave: true})),
    'unread-rest': () => proxy({requests: [{...aPassing, fault: 'closed', more: 4000000}, aPassing], client: 'shared', base: ''}),
    'late-error': () => proxy(one({fault: 'early', answerSized: true, answer: 'odd', sized: true})),
};
const known: Record<string, boolean> = {};

const tests: Record<string, {runs: [number, number]; property: () => fc.IRawProperty<any>}> = {
    handled: {runs: [6000, 200000], property: () => fc.asyncProperty(handled, handle)},
    proxied: {runs: [4000, 100000], property: () => fc.asyncProperty(proxied, proxy)},
};

async function main(): Promise<number> {
    if (opt.replay) {
        const text = fs.readFileSync(opt.replay, 'utf8');
        const [, name, path] = /^case (\S+) (\S*)$/m.exec(text)!;
        const seed = Number(/^seed (-?\d+)$/m.exec(text)![1]);
        const r: any = await fc.check(tests[name].property() as any, {seed, path, endOnFailure: true, numRuns: 1});
        if (r.failed) {
            console.log(fc.defaultReportMessage(r));
            console.log(`VIOLATION property=${opt.property} replay=${opt.replay}`);
        }
        return r.failed ? 1 : 0;
    }
    probing = true;
    LIMIT = 1500;
    for (const [tag, f] of Object.entries(reproductions)) {
        if (open(tag)) {
            try { await f(); known[tag] = false; } catch (e) { known[tag] = true; }
        }
    }
    await new Promise((go) => setTimeout(go, 50));
    probing = false;
    LIMIT = 10000;
    const report: Record<string, any> = {};
    let status = 0;
    for (const [name, test] of Object.entries(tests)) {
        const numRuns = test.runs[opt.tier === 'thorough' ? 1 : 0];
        const before = evaluations;
        const r: any = await fc.check(test.property() as any, {seed: opt.seed, numRuns, interruptAfterTimeLimit: opt.tier === 'thorough' ? 600000 : 100000, markInterruptAsFailure: false});
        report[name] = {planned: numRuns, run: evaluations - before, exhaustive: false};
        if (r.failed && r.counterexample !== null) {
            const text = [`property ${opt.property}`, `seed ${r.seed}`, `case ${name} ${r.counterexamplePath}`, '# minimal counterexample:',
                ...JSON.stringify(r.counterexample).split('\n').map((l) => '# ' + l),
                ...String((r.errorInstance as any)?.message ?? '').split('\n').map((l) => '# ' + l)].join('\n') + '\n';
            fs.writeFileSync(opt.replay_out!, text);
            console.log(`failure in ${name}: ${String((r.errorInstance as any)?.message)}`);
            console.log(JSON.stringify(r.counterexample).substring(0, 2000));
            console.log(`VIOLATION property=${opt.property} replay=${opt.replay_out}`);
            status = 1;
            break;
        }
    }
    fs.writeFileSync(opt.out!, JSON.stringify({evaluations, distinct_nontrivial: nontrivial.size, rule: RULE, samples, tests: report, labels, known}));
    return status;
}
main().then((s) => process.exit(s), (e) => { console.error(e); process.exit(3); });
