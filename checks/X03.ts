// X03: offers and datagrams of the echo example, with stand-ins for the native part and for the list of interfaces.
// Run by run.py, bundled; argv: options as one JSON object.
import * as assert from 'node:assert';
import * as crypto from 'node:crypto';
import * as dgram from 'node:dgram';
import * as fs from 'node:fs';
import * as http from 'node:http';
import fc from 'fast-check';

type Options = {
    property: string; seed: number; tier: string; bundle: string; known: string[]; out?: string; replay_out?: string; replay?: string;
};
const opt: Options = JSON.parse(process.argv[2]);
// Inputs of findings listed in known_findings.txt are left out of the search; each has a reproduction of its own.
const open = (tag: string) => opt.known.includes(`${opt.property}-${tag}`);
const LIMIT = 10000;

const RULE = 'the echo server gets offers (generated session descriptions with bundled media, some of them spoiled) and candidates over the loopback '
    + 'network, then datagrams on the ports its answers name; the stand-in of the native STUN server records what it is given and answers as told; '
    + 'non-trivial: an offer was answered, and datagrams were exchanged on its port';

let uncaught: any = null;
process.on('uncaughtException', (e) => { uncaught = uncaught || e; });
process.on('unhandledRejection', (e) => { uncaught = uncaught || e; });

// ---- the surroundings of the code under test
let webServer: http.Server | null = null;
let sockets: dgram.Socket[] = [];
let interfaces: Record<string, any[]> = {};
type Reply = {result: 'respond'; data: Buffer} | {result: 'ignore'; message?: any};
type Server = {users: [string, string][]; processed: {data: Buffer; port: number; address: string}[]; replies: Reply[]};
let stunServers: Server[] = [];
let candidateAnswer: any = null;
let candidates: any[] = [];
const native = {
    stun: {
        message_parse: (b: any) => {        // (answers are well formed here, with an even length)
            if (!Buffer.isBuffer(b) || b.length % 2) {
                throw new Error('not a STUN message');
            }
            return {class: 'request'};
        },
        StatelessServer: class {
            me: Server = {users: [], processed: [], replies: []};
            constructor() { stunServers.push(this.me); }
            addUser(u: any, p: any) {
                if (typeof u !== 'string' || typeof p !== 'string') {
                    throw new Error('not a string');
                }
                this.me.users.push([u, p]);
            }
            process(data: Buffer, rinfo: any) {
                this.me.processed.push({data: Buffer.from(data), port: rinfo.port, address: rinfo.address});
                return this.me.replies.shift() || {result: 'ignore'};
            }
        },
    },
    ice: {candidate_parse: (s: any) => { candidates.push(s); return candidateAnswer; }},
};
const silent = new Proxy({}, {get: () => () => undefined});
function load() {
    const mine = (name: string) => {
        if (name.endsWith('echo_backend')) {
            return native;
        }
        const m = require(name);
        switch (name.replace('node:', '')) {
        case 'http': return {...m, createServer: (...a: any[]) => {
            const s = (m.createServer as any)(...a);
            const listen = s.listen.bind(s);
            s.listen = () => listen(0, '127.0.0.1');    // not the port of the example
            webServer = s;
            return s;
        }};
        case 'dgram': return {...m, createSocket: (...a: any[]) => {
            const s = (m.createSocket as any)(...a);
            sockets.push(s);
            return s;
        }};
        case 'os': return {...m, networkInterfaces: () => interfaces};
        }
        return m;
    };
    new Function('require', 'console', fs.readFileSync(opt.bundle, 'utf8'))(mine, silent);
}

// ---- what a case was
let nontrivial = new Set<string>();
let samples: string[] = [];
let labels: Record<string, number> = {};
let evaluations = 0;
function count(test: string, what: string | null, ls: string[]) {
    ++evaluations;
    for (const l of new Set(ls)) {
        labels[`${test}/${l}`] = (labels[`${test}/${l}`] || 0) + 1;
    }
    if (what !== null) {
        const h = crypto.createHash('md5').update(what).digest('latin1');
        if (!nontrivial.has(h)) {
            nontrivial.add(h);
            if (samples.filter((s) => s.startsWith(test)).length < 3) {
                samples.push(`${test}: ${what.substring(0, 1500)}`);
            }
        }
    }
}
function soon<T>(p: Promise<T>, what: string): Promise<T> {
    let alarm: any;
    return Promise.race([p, new Promise<T>((_, no) => { alarm = setTimeout(() => no(new Error(`no end of ${what}`)), LIMIT); })])
        .finally(() => clearTimeout(alarm));
}
async function post(path: string, value: any): Promise<{status: number; body: string}> {
    if (!webServer!.listening) {
        await soon(new Promise((yes) => webServer!.once('listening', yes)), 'listening');
    }
    return soon(new Promise((yes, no) => {
        const req = http.request({host: '127.0.0.1', port: (webServer!.address() as any).port, path, method: 'POST', headers: {'content-type': 'application/json'}}, (res) => {
            const got: Buffer[] = [];
            res.on('data', (d) => got.push(d));
            res.on('end', () => yes({status: res.statusCode!, body: Buffer.concat(got).toString('utf8')}));
            res.on('error', no);
        });
        req.on('error', no);
        req.end(JSON.stringify(value));
    }), 'POST ' + path);
}

// ---- offers
const id = fc.string({unit: fc.constantFrom(...'abAB01+/'.split('')), minLength: 4, maxLength: 10});
const pass = fc.string({unit: fc.constantFrom(...'abAB01+/'.split('')), minLength: 22, maxLength: 30});
const attribute = fc.oneof(
    fc.constantFrom('sendrecv', 'rtcp-mux', 'rtpmap:96 VP8/90000', 'fmtp:96 apt=1;x="setup:active"', 'extmap:1 urn:ietf:params:rtp-hdrext:toffset', 'msid:- \u00e9\u{1f600}', 'x-setup:active',
        'ssrc:1 cname:setup:actpass', 'rtcp-fb:96 nack'));
const session = fc.oneof(fc.constantFrom('extmap-allow-mixed', 'msid-semantic: WMS', 'group:LS 0 1', 'ice-lite'));
const media = fc.record({media: fc.constantFrom('audio', 'video', 'application'), port: fc.constantFrom(0, 9, 50000, 65535), proto: fc.constantFrom('UDP/TLS/RTP/SAVPF', 'RTP/AVP'),
    formats: fc.array(fc.integer({min: 0, max: 127}), {minLength: 1, maxLength: 6}), before: fc.array(attribute, {maxLength: 4}), after: fc.array(attribute, {maxLength: 4}),
    candidates: fc.array(fc.constantFrom('1 1 UDP 1 10.0.0.1 9 typ host'), {maxLength: 2}), c: fc.boolean()});
const spoil = fc.oneof({weight: 8, arbitrary: fc.constant('')},
    {weight: 3, arbitrary: fc.constantFrom(...(open('no-credentials') ? [] : ['no ufrag', 'no pwd']), 'no group', 'unknown mid', 'disagree', 'cut', 'no version', 'not a text', 'no sdp', 'null')});
const iface = fc.record({family: fc.constantFrom('IPv4', 'IPv4', 'IPv6'), internal: fc.nat(3).map((n) => n === 0), a: fc.nat(255), b: fc.nat(255)})
    .map(({family, internal, a, b}) => ({family, internal, address: family === 'IPv4' ? `10.7.${a}.${b}` : `fd00::${a}:${b}`, netmask: '255.0.0.0', mac: '00:00:00:00:00:00', cidr: null}));
const datagram = fc.record({data: fc.uint8Array({maxLength: 40}), from: fc.nat(1), reply: fc.option(fc.uint8Array({maxLength: 20}).map((x) => new Uint8Array([...x, ...x])), {nil: null}), said: fc.boolean()});
const offer = fc.record({
    ufrag: id, pwd: pass, setup: fc.constantFrom('actpass', 'active', 'passive', 'holdconn'), session: fc.array(session, {maxLength: 3}), medias: fc.array(media, {minLength: 1, maxLength: 4}),
    spoil, name: fc.constantFrom('-', 'x y', 'o=1'), interfaces: fc.dictionary(fc.constantFrom('lo', 'eth0', 'wlan0', 'tun0'), fc.array(iface, {maxLength: 3}), {maxKeys: 4}),
    datagrams: fc.array(datagram, {maxLength: 4})});
type Offer = {ufrag: string; pwd: string; setup: string; session: string[]; medias: any[]; spoil: string; name: string; interfaces: any;
    datagrams: {data: Uint8Array; from: number; reply: Uint8Array | null; said: boolean}[]};

function attrsOf(o: Offer, m: any, i: number, setup: string): string[] {
    const bad = o.spoil;
    return [`mid:${i}`, ...m.before, ...(bad === 'no ufrag' ? [] : [`ice-ufrag:${o.ufrag}${bad === 'disagree' && i === o.medias.length - 1 ? 'x' : ''}`]),
        ...(bad === 'no pwd' ? [] : [`ice-pwd:${o.pwd}`]), `fingerprint:sha-256 AA:BB`, ...m.candidates.map((c: string) => 'candidate:' + c), `setup:${setup}`, ...m.after];
}
function write(l: [string, string][]): string { return l.map(([k, v]) => `${k}=${v}\r\n`).join(''); }
function group(o: Offer): string[] {
    return o.spoil === 'no group' ? [] : [['group:BUNDLE', ...o.medias.map((_, i) => o.spoil === 'unknown mid' && i === o.medias.length - 1 ? 'gone' : i)].join(' ')];
}
function text(o: Offer): string {
    const l: [string, string][] = [['v', '0'], ['o', `u 12 3 IN IP4 127.0.0.1`], ['s', o.name], ['t', '0 0']];
    [...o.session, ...group(o)].forEach((a) => l.push(['a', a]));
    o.medias.forEach((m, i) => {
        l.push(['m', `${m.media} ${m.port} ${m.proto} ${m.formats.join(' ')}`]);
        if (m.c) {
            l.push(['c', 'IN IP4 0.0.0.0']);
        }
        attrsOf(o, m, i, o.setup).forEach((a) => l.push(['a', a]));
    });
    return write(l);
}
const turned: Record<string, string> = {actpass: 'passive', active: 'passive', passive: 'active', holdconn: 'holdconn'};
function expectedAnswer(o: Offer): string {
    const l: [string, string][] = [['v', '0'], ['o', '- 0 0 IN IP4 127.0.0.1'], ['s', '-'], ['t', '0 0']];
    [...o.session, ...group(o)].forEach((a) => l.push(['a', a]));
    o.medias.forEach((m, i) => {
        l.push(['m', `${m.media} ${m.port} ${m.proto} ${m.formats.join(' ')}`]);
        attrsOf(o, m, i, turned[o.setup]).forEach((a) => l.push(['a', a]));
    });
    return write(l);
}

async function clients(n: number): Promise<dgram.Socket[]> {
    return Promise.all([...Array(n)].map(() => new Promise<dgram.Socket>((yes) => {
        const s = dgram.createSocket('udp4');
        s.bind(0, '127.0.0.1', () => yes(s));
    })));
}

async function offers(list: Offer[]) {
    uncaught = null;
    sockets = [];
    stunServers = [];
    const ls: string[] = [];
    let interesting = false;
    const mine = await clients(2);
    const answered: {o: Offer; port: number; server: Server}[] = [];
    try {
        for (const o of list) {
            interfaces = o.interfaces;
            const before = stunServers.length;
            let t: any = text(o);
            switch (o.spoil) {
            case 'cut': t = t.substring(0, t.length - 3); break;
            case 'no version': t = t.substring(5); break;
            case 'not a text': t = 17; break;
            }
            const body = o.spoil === 'no sdp' ? {spd: t} : o.spoil === 'null' ? null : {sdp: t};
            const r = await post('/echo-api/offer', body);
            ls.push(o.spoil || 'answered');
            // One media cannot disagree with itself, and its mid is the only one.
            const bad = o.spoil !== '' && !(o.spoil === 'disagree' && o.medias.length === 1);
            if (bad) {
                assert.ok(r.status >= 400 && r.status < 600, `status ${r.status} of an offer with ${o.spoil}: ${JSON.stringify(t)}`);
                assert.ok(stunServers.slice(before).every((s) => s.users.length === 0), `users ${JSON.stringify(stunServers.slice(before))} of an offer with ${o.spoil}`);
                continue;
            }
            assert.strictEqual(r.status, 200, `status of the offer ${JSON.stringify(t)}: ${r.body}`);
            const a = JSON.parse(r.body);
            assert.strictEqual(a.sdp, expectedAnswer(o), `answer to ${JSON.stringify(t)}`);
            assert.strictEqual(stunServers.length, before + 1, 'number of STUN servers');
            const server = stunServers[before];
            const ufrag = o.spoil === 'disagree' ? o.ufrag + 'x' : o.ufrag;
            assert.deepStrictEqual(server.users, [[`${ufrag}:${ufrag}`, o.pwd]], `users of ${JSON.stringify(t)}`);
            const bound = sockets[sockets.length - 1].address().port;
            const expected = Object.values(o.interfaces).flatMap((l: any) => l).filter((i: any) => i.family === 'IPv4' && !i.internal)
                .map((i: any) => `candidate:1 1 UDP 1 ${i.address} ${bound} typ host`);
            assert.deepStrictEqual(a.candidates, expected, `candidates of ${JSON.stringify(o.interfaces)}`);
            answered.push({o, port: bound, server});
        }
        for (const {o, port, server} of answered) {
            for (const d of o.datagrams) {
                const others = JSON.stringify(answered.filter((x) => x.server !== server).map((x) => x.server.processed.length));
                const from = mine[d.from];
                const n = server.processed.length;
                server.replies.push(d.reply ? {result: 'respond', data: Buffer.from(d.reply)} : {result: 'ignore', ...(d.said ? {message: 'not a request'} : {})});
                // Does it answer at all? A datagram may be lost on a full queue only; there is one at a time.
                const back = new Promise<Buffer>((yes) => from.once('message', (m) => yes(m)));
                await new Promise((yes) => from.send(d.data, port, '127.0.0.1', yes));
                if (d.reply) {
                    const m = await soon(back, 'waiting for the answer to a datagram');
                    assert.deepStrictEqual([...m], [...d.reply], 'octets of the answer');
                    interesting = true;
                } else {
                    const since = Date.now();
                    while (server.processed.length === n && Date.now() - since < LIMIT) {
                        await new Promise((yes) => setTimeout(yes, 0));
                    }
                    from.removeAllListeners('message');
                }
                assert.strictEqual(server.processed.length, n + 1, 'datagrams given to the STUN server');
                const p = server.processed[n];
                assert.deepStrictEqual([[...p.data], p.port, p.address], [[...d.data], from.address().port, '127.0.0.1'], 'datagram given to the STUN server');
                assert.strictEqual(JSON.stringify(answered.filter((x) => x.server !== server).map((x) => x.server.processed.length)), others, 'datagrams given to other servers');
            }
        }
        assert.ok(uncaught === null, `uncaught: ${uncaught && uncaught.stack}`);
    } finally {
        mine.forEach((s) => s.close());
        sockets.forEach((s) => { try { s.close(); } catch (e) {} });
    }
    count('offers', interesting ? JSON.stringify(list.map((o) => [text(o), o.interfaces, o.datagrams.length])) : null, ls);
}

const words = fc.string({unit: fc.constantFrom(...'ab"\\ {}[],:\n\u00e9\u{1f600}'.split('')), maxLength: 30});
const answers = fc.dictionary(fc.constantFrom('address', 'port', 'type', 'unknown'), fc.oneof(words, fc.integer(), fc.constant(null)), {maxKeys: 4}).map((x) => JSON.parse(JSON.stringify(x)));
async function candidate(c: {candidate: string; answer: any}) {
    uncaught = null;
    candidates = [];
    candidateAnswer = c.answer;
    const r = await post('/echo-api/ice-candidate', {candidate: c.candidate});
    assert.strictEqual(r.status, 200, 'status');
    assert.deepStrictEqual(candidates, [c.candidate], 'candidate given to the parser');
    assert.deepStrictEqual(JSON.parse(r.body), c.answer, 'answer');
    assert.ok(uncaught === null, `uncaught: ${uncaught && uncaught.stack}`);
    count('candidate', c.candidate.length > 3 ? JSON.stringify(c) : null, ['asked']);
}

// The finding: what fails of it, on one input.
const anOffer: Offer = {ufrag: 'abcd', pwd: 'x'.repeat(22), setup: 'active', session: [], medias: [{media: 'audio', port: 9, proto: 'RTP/AVP', formats: [0], before: [], after: [], candidates: [], c: false}],
    spoil: 'no ufrag', name: '-', interfaces: {}, datagrams: []};
const reproductions: Record<string, () => Promise<void>> = {'no-credentials': () => offers([anOffer])};
const known: Record<string, boolean> = {};

const tests: Record<string, {runs: [number, number]; property: () => fc.IRawProperty<any>}> = {
    offers: {runs: [6000, 150000], property: () => fc.asyncProperty(fc.array(offer, {minLength: 1, maxLength: 3}), offers)},
    candidate: {runs: [2000, 20000], property: () => fc.asyncProperty(fc.record({candidate: words, answer: answers}), candidate)},
};

async function main(): Promise<number> {
    load();
    if (opt.replay) {
        const t = fs.readFileSync(opt.replay, 'utf8');
        const [, name, path] = /^case (\S+) (\S*)$/m.exec(t)!;
        const seed = Number(/^seed (-?\d+)$/m.exec(t)![1]);
        const r: any = await fc.check(tests[name].property() as any, {seed, path, endOnFailure: true, numRuns: 1});
        if (r.failed) {
            console.log(fc.defaultReportMessage(r));
            console.log(`VIOLATION property=${opt.property} replay=${opt.replay}`);
        }
        return r.failed ? 1 : 0;
    }
    for (const [tag, f] of Object.entries(reproductions)) {
        if (open(tag)) {
            try { await f(); known[tag] = false; } catch (e) { known[tag] = true; }
        }
    }
    const report: Record<string, any> = {};
    let status = 0;
    for (const [name, test] of Object.entries(tests)) {
        const numRuns = test.runs[opt.tier === 'thorough' ? 1 : 0];
        const before = evaluations;
        const r: any = await fc.check(test.property() as any, {seed: opt.seed, numRuns, interruptAfterTimeLimit: opt.tier === 'thorough' ? 600000 : 100000, markInterruptAsFailure: false});
        report[name] = {planned: numRuns, run: evaluations - before, exhaustive: false};
        if (r.failed && r.counterexample !== null) {
            const t = [`property ${opt.property}`, `seed ${r.seed}`, `case ${name} ${r.counterexamplePath}`, '# minimal counterexample:',
                ...JSON.stringify(r.counterexample).split('\n').map((l) => '# ' + l),
                ...String((r.errorInstance as any)?.message ?? '').split('\n').map((l) => '# ' + l)].join('\n') + '\n';
            fs.writeFileSync(opt.replay_out!, t);
            console.log(`failure in ${name}: ${String((r.errorInstance as any)?.message)}`);
            console.log(JSON.stringify(r.counterexample).substring(0, 2000));
            console.log(`VIOLATION property=${opt.property} replay=${opt.replay_out}`);
            status = 1;
            break;
        }
    }
    fs.writeFileSync(opt.out!, JSON.stringify({evaluations, distinct_nontrivial: nontrivial.size, rule: RULE, samples, tests: report, labels, known}));
    return status;
}
main().then((s) => process.exit(s), (e) => { console.error(e); process.exit(3); });
