// The bundled client behind a line protocol: one JSON question per line in, one JSON answer per line out.
'use strict';
const dir = process.argv[2];
const { client: C, kit } = require(dir + '/client.cjs');
const rl = require('node:readline').createInterface({ input: process.stdin });
const hex = b => Buffer.from(b).toString('hex');
const unhex = s => Uint8Array.from(Buffer.from(s, 'hex'));
const cap = s => s[0].toUpperCase() + s.slice(1);
const signer = address => ({ address, signMessages: async l => l.map(() => ({})), signTransactions: async l => l.map(() => ({})) });
// values: "addr", {s: addr} a signer, {n: "12"} bigint, {f: 12} number, lists, booleans
function val(x) {
    if (x === null || typeof x !== 'object') return x;
    if (Array.isArray(x)) return x.map(val);
    if ('s' in x) return signer(x.s);
    if ('n' in x) return BigInt(x.n);
    if ('f' in x) return Number(x.f);
    return obj(x);
}
const obj = o => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, val(v)]));
const ixOut = i => ({
    p: i.programAddress,
    d: hex(i.data ?? []),
    a: (i.accounts ?? []).map(m => [m.address, m.role, m.signer ? m.signer.address : null]),
});
const plain = v =>
    typeof v === 'bigint' ? String(v) : v instanceof Uint8Array ? hex(v) : Array.isArray(v) ? v.map(plain) : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, w]) => [k, plain(w)])) : v;
const accs = a => Object.fromEntries(Object.entries(a).map(([k, m]) => [k, m && m.address !== undefined ? [m.address, m.role] : null]));
function parsed(p) {
    return { type: C.TokenWrapInstruction[p.instructionType], p: p.programAddress, accounts: accs(p.accounts), data: plain(p.data) };
}
function ixIn(q) {
    return { programAddress: q.p, data: unhex(q.d), accounts: q.a.map(([address, role]) => ({ address, role })) };
}
function rpcOf(q, log) {
    const get = a => {
        const x = q.accounts[a];
        return x ? { data: [Buffer.from(unhex(x.d)).toString('base64'), 'base64'], executable: !!x.x, lamports: BigInt(x.l), owner: x.o, space: BigInt(x.d.length / 2) } : null;
    };
    const call = (what, f) => ({ send: async () => { log.push(what); return f(); } });
    return {
        getAccountInfo: a => call(['account', a], () => ({ context: { slot: 1n }, value: get(a) })),
        getMultipleAccounts: l => call(['accounts', ...l], () => ({ context: { slot: 1n }, value: l.map(get) })),
        getMinimumBalanceForRentExemption: n => call(['rent', String(n)], () => (128n + BigInt(n)) * BigInt(q.rent ?? 6960)),
    };
}
const plugin = (rpc, sent) =>
    C.tokenWrapProgram()({ rpc, planTransaction: async i => { sent.push(['plan', ixOut(i)]); }, sendTransaction: async i => { sent.push(['send', ixOut(i)]); } }).tokenWrap;
const msgOut = m => ({ version: m.version, payer: m.feePayer?.address, life: plain(m.lifetimeConstraint), ixs: m.instructions.map(ixOut) });
const acct = a => ({ address: a.address, exists: a.exists, data: plain(a.data), owner: a.programAddress, lamports: plain(a.lamports) });
const ops = {
    async pda(q) {
        const f = q.plugin ? plugin({}, []).pdas[q.name] : C[`find${cap(q.name)}Pda`];
        return plain(await (q.prog ? f(q.seeds, { programAddress: q.prog }) : f(q.seeds)));
    },
    async ix(q) {
        const sent = [];
        const i = q.plugin ? plugin({}, sent).instructions[q.name](obj(q.input)) : C[`get${cap(q.name)}Instruction`](obj(q.input), q.prog ? { programAddress: q.prog } : undefined);
        const out = { ix: ixOut(i), parsed: parsed(C.parseTokenWrapInstruction(i)) };
        if (q.plugin) {
            await i.planTransaction();
            await i.sendTransaction();
            out.sent = sent;
        }
        return out;
    },
    async parse(q) {
        const i = ixIn(q);
        const P = q.plugin ? plugin({}, []) : { identifyInstruction: C.identifyTokenWrapInstruction, parseInstruction: C.parseTokenWrapInstruction };
        const r = { type: C.TokenWrapInstruction[P.identifyInstruction(i)], raw: C.TokenWrapInstruction[P.identifyInstruction(i.data)] };
        try {
            r.parsed = parsed(P.parseInstruction(i));
        } catch (e) {
            r.refused = String(e.message);
        }
        return r;
    },
    async data(q) {
        const n = cap(q.name);
        const codec = C[`get${n}InstructionDataCodec`]();
        const r = { enc: hex(codec.encode(obj(q.args))), enc2: hex(C[`get${n}InstructionDataEncoder`]().encode(obj(q.args))), disc: hex(C[`get${n}DiscriminatorBytes`]()) };
        r.dec = plain(codec.decode(unhex(r.enc)));
        r.dec2 = plain(C[`get${n}InstructionDataDecoder`]().decode(unhex(r.enc)));
        return r;
    },
    async backpointer(q) {
        const c = C.getBackpointerCodec();
        const d = unhex(q.d);
        const r = { size: C.getBackpointerSize(), dec: c.decode(d).unwrappedMint, dec2: C.getBackpointerDecoder().decode(d).unwrappedMint };
        r.enc = hex(c.encode({ unwrappedMint: q.u }));
        r.enc2 = hex(C.getBackpointerEncoder().encode({ unwrappedMint: q.u }));
        r.acct = C.decodeBackpointer({ address: q.u, data: d, exists: true }).data.unwrappedMint;
        return r;
    },
    async fetch(q) {
        const log = [];
        const rpc = rpcOf(q, log);
        const P = plugin(rpc, []).accounts.backpointer;
        const one = async f => { try { return acct(await f()); } catch (e) { return { error: String(e.message) }; } };
        const many = async f => { try { return (await f()).map(acct); } catch (e) { return { error: String(e.message) }; } };
        return {
            fetch: await one(() => C.fetchBackpointer(rpc, q.list[0])),
            maybe: await one(() => C.fetchMaybeBackpointer(rpc, q.list[0])),
            all: await many(() => C.fetchAllBackpointer(rpc, q.list)),
            allMaybe: await many(() => C.fetchAllMaybeBackpointer(rpc, q.list)),
            seeds: await one(() => C.fetchBackpointerFromSeeds(rpc, { wrappedMint: q.w }, q.prog ? { programAddress: q.prog } : undefined)),
            maybeSeeds: await one(() => C.fetchMaybeBackpointerFromSeeds(rpc, { wrappedMint: q.w }, q.prog ? { programAddress: q.prog } : undefined)),
            pFetch: await one(() => P.fetch(q.list[0])),
            pAllMaybe: await many(() => P.fetchAllMaybe(q.list)),
        };
    },
    async helper(q) {
        const log = [];
        const a = obj(q.args);
        a.rpc = rpcOf(q, log);
        const r = await C[q.name](a);
        const out = {};
        for (const [k, v] of Object.entries(r)) if (k !== 'ixs' && k !== 'instructions' && k !== 'account') out[k] = plain(v);
        if (r.account) out.account = acct(r.account);
        if (r.ixs) out.ixs = r.ixs.map(ixOut);
        return { r: r.instructions ? msgOut(r) : out, log };
    },
    async combine(q) {
        const t = q.txs.map(t => ({ messageBytes: unhex(t.m), signatures: Object.fromEntries(t.s.map(([a, s]) => [a, s === null ? null : unhex(s)])), lifetimeConstraint: t.life }));
        const shape = () => JSON.stringify(t.map(t => ({ m: hex(t.messageBytes), s: Object.entries(t.signatures).map(([a, s]) => [a, s === null ? null : hex(s)]), life: t.lifetimeConstraint })));
        const before = shape();
        const r = C.combinedMultisigTx({ signedTxs: t, blockhash: q.life });
        return { m: hex(r.messageBytes), s: Object.entries(r.signatures).map(([a, s]) => [a, s === null || s === undefined ? null : hex(s)]), life: plain(r.lifetimeConstraint), touched: shape() !== before };
    },
    async errors() {
        const r = {};
        for (const [k, v] of Object.entries(C)) if (k.startsWith('TOKEN_WRAP_ERROR__')) r[k] = [v, C.getTokenWrapErrorMessage(v)];
        return { errors: r, program: C.TOKEN_WRAP_PROGRAM_ADDRESS };
    },
    async iserr(q) {
        const e = q.custom ? new kit.SolanaError(kit.SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM, { code: q.code, index: q.index }) : new Error('x');
        const tx = { instructions: q.progs.map(programAddress => ({ programAddress })) };
        return { is: q.want === null ? C.isTokenWrapError(e, tx) : C.isTokenWrapError(e, tx, q.want) };
    },
    async idl() {
        return require(dir + '/idl.cjs').written;
    },
};
(async () => {
    for await (const l of rl) {
        if (!l) continue;
        let r;
        try {
            const q = JSON.parse(l);
            r = { ok: await ops[q.op](q) };
        } catch (e) {
            r = { err: String(e && e.message ? e.message : e) };
        }
        process.stdout.write(JSON.stringify(r) + '\n');
    }
})();
