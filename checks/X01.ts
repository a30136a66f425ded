// X01: session descriptions of the echo example.
// Run by run.py, bundled; argv: options as one JSON object.
import * as assert from 'node:assert';
import * as crypto from 'node:crypto';
import * as fs from 'node:fs';
import * as vm from 'node:vm';
import fc from 'fast-check';

type Options = {
    property: string; seed: number; tier: string; bundle: string; known: string[]; out?: string; replay_out?: string; replay?: string;
};
const opt: Options = JSON.parse(process.argv[2]);
// Inputs of findings listed in known_findings.txt are left out of the search; each has a reproduction of its own.
const open = (tag: string) => opt.known.includes(`${opt.property}-${tag}`);

const RULE = 'session descriptions put together from known fields (or only their octets) are written by the check, parsed, and '
    + 'written again by the code; texts of the same made wrong by changes, or drawn from pieces of lines; and descriptions with '
    + 'bundled media; non-trivial: accepted with a media description, or refused after a change';

// The code under test runs where a call that does not end can be ended.
const context = vm.createContext({input: undefined, console});
vm.runInContext(fs.readFileSync(opt.bundle, 'utf8'), context);
function call(name: string, ...input: unknown[]): any {
    context.input = input;
    try {
        const r = vm.runInContext(`JSON.stringify(SDP_UNDER_TEST.${name}(...input))`, context, {timeout: 5000});
        return {value: r === undefined ? undefined : JSON.parse(r)};
    } catch (e: any) {
        if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') {
            throw new Error(`${name} does not end`);
        }
        return {thrown: String(e && e.message || e)};
    }
}

// ---- what a case was
let nontrivial = new Set<string>();
let samples: string[] = [];
let labels: Record<string, number> = {};
let evaluations = 0;
let silent = false;
function count(test: string, label: string, what: string | null) {
    if (silent) {
        return;
    }
    ++evaluations;
    labels[`${test}/${label}`] = (labels[`${test}/${label}`] || 0) + 1;
    if (what !== null) {
        const h = crypto.createHash('md5').update(what).digest('latin1');
        if (!nontrivial.has(h)) {
            nontrivial.add(h);
            if (samples.filter((s) => s.startsWith(test)).length < 3) {
                samples.push(`${test}: ${what.substring(0, 1500)}`);
            }
        }
    }
}

// ---- descriptions as fields
type Line = [string, string];
const digits = fc.integer({min: 0, max: 999999999}).map(String);
const token = fc.string({unit: fc.constantFrom(...'abzAZ09-_.+!#$%&*'.split('')), minLength: 1, maxLength: 8});
const separators = open('line-separators') ? /[\u2028\u2029]/g : /(?!)/g;
const text = fc.oneof(
    {weight: 4, arbitrary: fc.string({unit: fc.constantFrom(...'ab z:=/;,. -0'.split('')), minLength: 1, maxLength: 20})},
    {weight: 1, arbitrary: fc.string({unit: 'grapheme', minLength: 1, maxLength: 10}).map((s) => s.replace(/[\r\n\0]/g, 'x'))},
    {weight: 1, arbitrary: fc.constantFrom('a=b', 'm=audio 9 UDP 0', ' ', 'v=0', '\u2028', 'x\u2029y', 'c=IN IP4 1', '\u0085', '\t', '\ud83d\ude00')}).map((t) => t.replace(separators, 'x'));
const opt_ = <T>(a: fc.Arbitrary<T>) => fc.option(a, {nil: undefined});
const connection = fc.record({
    net: fc.constantFrom('IN', 'X'), address: fc.record({type: fc.constantFrom('IP4', 'IP6'), value: fc.constantFrom('127.0.0.1', '::1', '224.2.36.42/127', 'a.example')})});
const bandwidth = fc.record({type: fc.constantFrom('AS', 'CT', 'TIAS', 'X-YZ'), value: digits});
const bandwidths = (n: number) => fc.array(bandwidth, {maxLength: open('bandwidth-value') ? 0 : n});
const attrs = fc.array(fc.oneof({weight: 2, arbitrary: text}, {weight: 3, arbitrary: fc.constantFrom(
    'group:BUNDLE 0 1', 'mid:0', 'ice-ufrag:abcd', 'candidate:1 1 UDP 1 10.0.0.1 9 typ host', 'rtpmap:96 VP8/90000', 'sendrecv', 'setup:actpass')}), {maxLength: 5});
const media = fc.record({
    media: fc.constantFrom('audio', 'video', 'application', 'text'),
    port: fc.oneof(fc.constantFrom(0, 9, 65535), fc.integer({min: 0, max: 65535})),
    ports: open('ports') ? fc.constant(undefined) : opt_(fc.integer({min: 1, max: 300})),
    proto: fc.constantFrom('RTP/AVP', 'UDP/TLS/RTP/SAVPF', 'udp'),
    formats: fc.array(fc.integer({min: 0, max: 127}), {minLength: 1, maxLength: 40}),
    information: opt_(text),
    connection: fc.array(connection, {maxLength: 2}),
    bandwidth: bandwidths(2),
    key: opt_(text),
    attrs,
});
const description = fc.record({
    origin: fc.record({username: token, sess: fc.record({id: digits, version: digits}), net: fc.constant('IN'),
                       address: fc.record({type: fc.constantFrom('IP4', 'IP6'), value: fc.constantFrom('127.0.0.1', '::1', 'host.example')})}),
    name: text,
    information: opt_(text),
    uri: opt_(text),
    emails: fc.array(text, {maxLength: 2}),
    phones: fc.array(text, {maxLength: 2}),
    connection: opt_(connection),
    bandwidth: bandwidths(3),
    time: fc.array(fc.tuple(digits, digits).map((t) => t.join(' ')), {minLength: 1, maxLength: open('time-lines') ? 1 : 3}),
    zone: opt_(text),
    key: opt_(text),
    attrs,
    media: fc.array(media, {maxLength: 4}),
});
type Description = any;

function lines(d: Description): Line[] {
    const out: Line[] = [];
    const put = (k: string, v: any) => { if (v !== undefined) { out.push([k, v]); } };
    const conn = (c: any) => c && `${c.net} ${c.address.type} ${c.address.value}`;
    put('v', '0');
    put('o', [d.origin.username, d.origin.sess.id, d.origin.sess.version, d.origin.net, d.origin.address.type, d.origin.address.value].join(' '));
    put('s', d.name);
    put('i', d.information);
    put('u', d.uri);
    d.emails.forEach((v: string) => put('e', v));
    d.phones.forEach((v: string) => put('p', v));
    put('c', conn(d.connection));
    d.bandwidth.forEach((b: any) => put('b', b.type + ':' + b.value));
    d.time.forEach((v: string) => put('t', v));
    put('z', d.zone);
    put('k', d.key);
    d.attrs.forEach((v: string) => put('a', v));
    d.media.forEach((m: any) => {
        put('m', `${m.media} ${m.port}${m.ports === undefined ? '' : '/' + m.ports} ${m.proto} ${m.formats.join(' ')}`);
        put('i', m.information);
        m.connection.forEach((c: any) => put('c', conn(c)));
        m.bandwidth.forEach((b: any) => put('b', b.type + ':' + b.value));
        put('k', m.key);
        m.attrs.forEach((v: string) => put('a', v));
    });
    return out;
}
const write = (l: Line[]) => l.map(([k, v]) => `${k}=${v}\r\n`).join('');
const clean = (x: any) => JSON.parse(JSON.stringify(x));

// Fields the parser found, with the number of ports taken out of its text.
function fields(o: any): any {
    const r = clean(o);
    for (const m of r.media) {
        if (m.integer !== undefined) {
            m.ports = Number(String(m.integer).replace('/', ''));
            delete m.integer;
        }
    }
    return r;
}

// ---- bundles
type Transport = {ufrag: string; pwd: string; options: string[]; setup: string; fingerprint: string};
const transport: fc.Arbitrary<Transport> = fc.record({
    ufrag: fc.constantFrom('abcd', 'efgh'), pwd: fc.constantFrom('0123456789012345678901', 'x:y z'),
    options: fc.uniqueArray(fc.constantFrom('trickle', 'renomination', 'ice2'), {maxLength: 3}),
    setup: fc.constantFrom('actpass', 'passive'), fingerprint: fc.constantFrom('sha-256 AA:BB:CC', 'sha-1 00:11')});

// Texts whose refusal takes more steps than anyone can wait for.
const spaces = (t: string) => t.split(' ').length - 1;
function slow(t: string): boolean {
    const starts = (k: string) => [...t.matchAll(new RegExp(`(^|[\r\n\u2028\u2029])${k}=`, 'g'))].map((m) => t.substring(m.index! + m[1].length));
    const line = (s: string) => /^[^\r\n\u2028\u2029]*/.exec(s)![0];
    return (open('polynomial') && [...starts('o'), ...starts('c')].some((s) => spaces(line(s)) > 40))
        // (the first three words of a media line can have ends of lines in them)
        || (open('exponential') && starts('m').some((s) => {
            const rest = /^m=[^ ]* [^ ]* ([^]*)/.exec(s);
            if (!rest) {
                return false;
            }
            const proto = /^[^ ]*/.exec(rest[1])![0];
            const l = line(rest[1].substring(proto.length));
            return spaces(l) > 12 && !rest[1].substring(proto.length + l.length).startsWith('\r\n');
        }));
}

const tests: Record<string, {runs: [number, number]; property: () => fc.IProperty<any>}> = {
    // Every field as written, and the same text again.
    descriptions: {runs: [40000, 1000000], property: () => fc.property(description, (d) => {
        const t = write(lines(d));
        const r = call('parseSDP', t);
        assert.ok(r.value !== undefined, `parse of ${JSON.stringify(t)} threw: ${r.thrown}`);
        assert.strictEqual(r.value.type, 'success', `${JSON.stringify(t)} is refused: ${r.value.description}`);
        assert.deepStrictEqual(fields(r.value.obj), clean({v: 0, ...d}), `fields of ${JSON.stringify(t)}`);
        const w = call('serializeSDP', r.value.obj);
        assert.strictEqual(w.value, t, `written again: ${JSON.stringify(w)}`);
        count('descriptions', d.media.length ? 'with media' : 'without media', d.media.length ? t : null);
    })},
    // Whatever the text, an answer, and soon.
    changed: {runs: [40000, 1000000], property: () => fc.property(
        description,
        fc.array(fc.record({at: fc.nat(4000), kind: fc.nat(5), what: fc.constantFrom('', ' ', '\r\n', '\n', 'm=', 'a=', 'c=IN ', 'b=x', ' 1 2', '\r', '=', 'v=0\r\n',
            ' '.repeat(40), ' 0'.repeat(40), 'x'.repeat(60), ' '.repeat(3000), ' 0'.repeat(2000), '/'.repeat(3000))}), {minLength: 1, maxLength: 3}),
        (d, changes) => {
            let t = write(lines(d));
            for (const {at, kind, what} of changes) {
                const i = at % (t.length + 1);
                switch (kind) {
                case 0: t = t.substring(0, i); break;
                case 1: t = t.substring(0, i) + what + t.substring(i); break;
                case 2: t = t.substring(0, i) + what + t.substring(i + 1); break;
                case 3: { // a line less
                    const l = t.split('\r\n');
                    l.splice(at % l.length, 1);
                    t = l.join('\r\n');
                    break;
                }
                case 4: { // a line twice
                    const l = t.split('\r\n');
                    l.splice(at % l.length, 0, l[(at * 7) % l.length]);
                    t = l.join('\r\n');
                    break;
                }
                default: { // no end of line
                    const l = t.split('\r\n');
                    const k = at % l.length;
                    t = l.slice(0, k + 1).join('\r\n') + what + l.slice(k + 1).join('\r\n');
                }
                }
            }
            if (slow(t)) {
                count('changed', 'left out: known finding', null);
                return;
            }
            const r = call('parseSDP', t);
            assert.ok(r.value !== undefined, `parse of ${JSON.stringify(t)} threw: ${r.thrown}`);
            if (r.value.type === 'success') {
                const w = call('serializeSDP', r.value.obj);
                assert.strictEqual(typeof w.value, 'string', `${JSON.stringify(t)} was parsed, but not written: ${w.thrown}`);
                assert.ok(t.startsWith('v=0\r\no='), `${JSON.stringify(t)} is accepted`);
                count('changed', 'accepted', null);
            } else {
                assert.strictEqual(r.value.type, 'error', 'neither a success nor an error');
                assert.strictEqual(typeof r.value.description, 'string', 'an error without a description');
                count('changed', 'refused', t);
            }
        })},
    // Transports of the bundles: those of their media, if they agree.
    bundles: {runs: [20000, 500000], property: () => fc.property(
        description, fc.array(transport, {minLength: 1, maxLength: 2}),
        fc.array(fc.record({which: fc.nat(30), candidates: fc.array(fc.constantFrom('1 1 UDP 1 10.0.0.1 9 typ host', '2 1 udp 7 ::1 8 typ host generation 0'), {maxLength: 3}),
                            shuffle: fc.boolean(), without: fc.nat(20)}), {maxLength: 5}),
        fc.array(fc.array(fc.nat(5), {maxLength: 5}), {maxLength: 3}),
        (base, ts, ms, groups) => {
            const medias = ms.map(({which, candidates, shuffle, without}, i) => {
                const t = ts[which < 28 ? 0 : (which % ts.length)];
                const options = shuffle ? [...t.options].reverse() : t.options;
                const a = [`mid:${i}`, 'rtpmap:96 VP8/90000', ...candidates.slice(0, 1).map((c) => 'candidate:' + c), `ice-ufrag:${t.ufrag}`, `ice-pwd:${t.pwd}`,
                           ...(options.length ? [`ice-options:${options.join(' ')}`] : []), `setup:${t.setup}`, `fingerprint:${t.fingerprint}`,
                           ...candidates.slice(1).map((c) => 'candidate:' + c), 'sendrecv'];
                const leave = without < 2 ? ['ice-ufrag', 'setup'][without] : null;
                return {t, candidates, leave, options: t.options, attrs: a.filter((x) => leave === null || !x.startsWith(leave))};
            });
            const sdp = clean({v: 0, ...base, attrs: ['extmap-allow-mixed', ...groups.map((g) => ['group:BUNDLE', ...g].join(' ')), 'group:LS 0 1'],
                media: medias.map((m, i) => ({media: 'audio', port: 9, proto: 'UDP/TLS/RTP/SAVPF', formats: [0], connection: [], bandwidth: [], attrs: m.attrs}))});
            const before = JSON.stringify(sdp);
            const r = call('webrtcProcessSDP', sdp);
            assert.strictEqual(JSON.stringify(sdp), before, 'the description was changed');
            const view = (m: any) => JSON.stringify([m.leave === 'ice-ufrag' ? null : m.t.ufrag, m.t.pwd, [...m.options].sort(), m.leave === 'setup' ? null : m.t.setup, m.t.fingerprint]);
            const bad = groups.some((g) => g.length === 0 || g.some((i) => i >= medias.length) || new Set(g.map((i) => view(medias[i]))).size > 1);
            const what = JSON.stringify([sdp.attrs, sdp.media.map((m: any) => m.attrs)]);
            if (bad) {
                assert.ok(r.thrown !== undefined, `transports of ${what}`);
                count('bundles', 'refused', null);
                return;
            }
            assert.ok(r.value !== undefined, `no transports of ${what}: ${r.thrown}`);
            assert.strictEqual(r.value.transports.length, groups.length, `number of transports of ${what}`);
            r.value.transports.forEach((x: any, i: number) => {
                const g = groups[i].map((k) => medias[k]);
                assert.strictEqual(x.ice.ufrag, g[0].leave === 'ice-ufrag' ? undefined : g[0].t.ufrag, `ufrag of ${what}`);
                assert.strictEqual(x.ice.pwd, g[0].t.pwd, `password of ${what}`);
                assert.deepStrictEqual([...x.ice.options].sort(), [...g[0].options].sort(), `options of ${what}`);
                assert.strictEqual(x.dtls.setup, g[0].leave === 'setup' ? undefined : g[0].t.setup, `setup of ${what}`);
                assert.strictEqual(x.dtls.fingerprint, g[0].t.fingerprint, `fingerprint of ${what}`);
                assert.deepStrictEqual(x.ice.candidates, g.flatMap((m) => m.candidates), `candidates of ${what}`);
            });
            count('bundles', groups.length ? 'transports' : 'no bundle', groups.length ? what : null);
        })},
};

// The findings: what fails of each, on the smallest input.
const HEAD = 'v=0\r\no=u 1 2 IN IP4 127.0.0.1\r\ns=-\r\n';
const reproductions: Record<string, () => void> = {
    'bandwidth-value': () => assert.strictEqual(call('parseSDP', HEAD + 'b=AS:7\r\nt=0 0\r\n').value.obj.bandwidth[0].value, '7'),
    'ports': () => assert.ok(JSON.stringify(call('parseSDP', HEAD + 't=0 0\r\nm=audio 9/2 RTP/AVP 0\r\n').value.obj.media[0]).includes('2')),
    'line-separators': () => assert.strictEqual(call('parseSDP', 'v=0\r\no=u 1 2 IN IP4 127.0.0.1\r\ns=\u2028\r\nt=0 0\r\n').value.type, 'success'),
    'time-lines': () => {
        const t = HEAD + 't=0 0\r\nt=1 1\r\n';
        assert.strictEqual(call('serializeSDP', call('parseSDP', t).value.obj).value, t);
    },
    'exponential': () => { call('parseSDP', HEAD + 't=0 0\r\nm=audio 9 RTP/AVP' + ' 0'.repeat(40)); },
    'polynomial': () => { call('parseSDP', 'v=0\r\no=' + ' '.repeat(3000)); },
};
const known: Record<string, boolean> = {};

function main(): number {
    if (opt.replay) {
        const [, name, path] = /^case (\S+) (\S*)$/m.exec(fs.readFileSync(opt.replay, 'utf8'))!;
        const seed = Number(/^seed (-?\d+)$/m.exec(fs.readFileSync(opt.replay, 'utf8'))![1]);
        const r = fc.check(tests[name].property(), {seed, path, endOnFailure: true, numRuns: 1});
        if (r.failed) {
            console.log(fc.defaultReportMessage(r));
            console.log(`VIOLATION property=${opt.property} replay=${opt.replay}`);
        }
        return r.failed ? 1 : 0;
    }
    for (const [tag, f] of Object.entries(reproductions)) {
        if (open(tag)) {
            try { f(); known[tag] = false; } catch (e) { known[tag] = true; }
        }
    }
    const report: Record<string, any> = {};
    let status = 0;
    for (const [name, test] of Object.entries(tests)) {
        const numRuns = test.runs[opt.tier === 'thorough' ? 1 : 0];
        const before = evaluations;
        const r = fc.check(test.property(), {seed: opt.seed, numRuns, interruptAfterTimeLimit: opt.tier === 'thorough' ? 600000 : 70000, markInterruptAsFailure: false});
        report[name] = {planned: numRuns, run: evaluations - before, exhaustive: false};
        if (r.failed && r.counterexample !== null) {
            const text = [`property ${opt.property}`, `seed ${r.seed}`, `case ${name} ${r.counterexamplePath}`, '# minimal counterexample:',
                ...JSON.stringify(r.counterexample).split('\n').map((l) => '# ' + l),
                ...String((r.errorInstance as any)?.message ?? '').split('\n').map((l) => '# ' + l)].join('\n') + '\n';
            fs.writeFileSync(opt.replay_out!, text);
            console.log(`failure in ${name}: ${String((r.errorInstance as any)?.message)}`);
            console.log(`VIOLATION property=${opt.property} replay=${opt.replay_out}`);
            status = 1;
            break;
        }
    }
    fs.writeFileSync(opt.out!, JSON.stringify({evaluations, distinct_nontrivial: nontrivial.size, rule: RULE, samples, tests: report, labels, known}));
    return status;
}
process.exit(main());
