// Stand-in for the parts of @solana/kit a program client uses; written from its documented behaviour.
import { createHash, generateKeyPairSync, sign as edSign, createPrivateKey } from 'node:crypto';

// ---- errors
export const SOLANA_ERROR__PROGRAM_CLIENTS__INSUFFICIENT_ACCOUNT_METAS = 8500000;
export const SOLANA_ERROR__PROGRAM_CLIENTS__UNRECOGNIZED_INSTRUCTION_TYPE = 8500001;
export const SOLANA_ERROR__PROGRAM_CLIENTS__FAILED_TO_IDENTIFY_INSTRUCTION = 8500002;
export const SOLANA_ERROR__PROGRAM_CLIENTS__UNEXPECTED_RESOLVED_INSTRUCTION_INPUT_TYPE = 8500003;
export const SOLANA_ERROR__PROGRAM_CLIENTS__RESOLVED_INSTRUCTION_INPUT_MUST_BE_NON_NULL = 8500004;
export const SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
export class SolanaError extends Error {
    constructor(code, context = {}) {
        super(`Solana error #${code} ${JSON.stringify(context, (k, v) => (typeof v === 'bigint' ? String(v) : v))}`);
        this.name = 'SolanaError';
        this.context = Object.freeze({ __code: code, ...context });
    }
}
export function isSolanaError(e, code) {
    return e instanceof SolanaError && (code === undefined || e.context.__code === code);
}
export function isProgramError(error, transactionMessage, programAddress, code) {
    if (!isSolanaError(error, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
    const p = transactionMessage.instructions[error.context.index]?.programAddress;
    if (!p || p !== programAddress) return false;
    return code === undefined || error.context.code === code;
}

// ---- codecs
const fixed = (n, enc, dec) => [
    () => mkEnc(n, enc),
    () => mkDec(n, dec),
];
function mkEnc(fixedSize, enc) {
    return Object.freeze({
        fixedSize,
        getSizeFromValue: v => (fixedSize ?? enc(v).length),
        encode: v => enc(v),
        write: (v, bytes, o) => {
            const b = enc(v);
            bytes.set(b, o);
            return o + b.length;
        },
    });
}
function mkDec(fixedSize, dec) {
    const read = (bytes, o = 0) => {
        if (fixedSize !== undefined && bytes.length - o < fixedSize)
            throw new Error(`Codec expected ${fixedSize} bytes, got ${bytes.length - o}`);
        return dec(bytes, o);
    };
    return Object.freeze({ fixedSize, read, decode: (bytes, o = 0) => read(bytes, o)[0] });
}
const int = (n, signed) => {
    const bits = BigInt(8 * n);
    const [lo, hi] = signed ? [-(1n << (bits - 1n)), (1n << (bits - 1n)) - 1n] : [0n, (1n << bits) - 1n];
    return fixed(
        n,
        v => {
            const x = BigInt(v);
            if (x < lo || x > hi) throw new Error(`Codec expected number to be in the range [${lo}, ${hi}], got ${v}`);
            const b = new Uint8Array(n);
            let y = BigInt.asUintN(8 * n, x);
            for (let i = 0; i < n; i++) {
                b[i] = Number(y & 255n);
                y >>= 8n;
            }
            return b;
        },
        (bytes, o) => {
            let x = 0n;
            for (let i = n - 1; i >= 0; i--) x = (x << 8n) | BigInt(bytes[o + i]);
            if (signed) x = BigInt.asIntN(8 * n, x);
            return [n <= 4 ? Number(x) : x, o + n];
        },
    );
};
export const [getU8Encoder, getU8Decoder] = int(1);
export const [getU16Encoder, getU16Decoder] = int(2);
export const [getU32Encoder, getU32Decoder] = int(4);
export const [getU64Encoder, getU64Decoder] = int(8);
export const [getU128Encoder, getU128Decoder] = int(16);
export const [getI8Encoder, getI8Decoder] = int(1, true);
export const [getI16Encoder, getI16Decoder] = int(2, true);
export const [getI32Encoder, getI32Decoder] = int(4, true);
export const [getI64Encoder, getI64Decoder] = int(8, true);
export function getBooleanEncoder(config = {}) {
    const n = config.size ?? getU8Encoder();
    return mkEnc(n.fixedSize, v => n.encode(v ? 1 : 0));
}
export function getBooleanDecoder(config = {}) {
    const n = config.size ?? getU8Decoder();
    return mkDec(n.fixedSize, (b, o) => {
        const [v, p] = n.read(b, o);
        return [Number(v) === 1, p];
    });
}
const utf8e = new TextEncoder();
export const getUtf8Encoder = () => mkEnc(undefined, s => utf8e.encode(s));
export const getUtf8Decoder = () => mkDec(undefined, (b, o) => [new TextDecoder().decode(b.slice(o)).replaceAll('\0', ''), b.length]);
export const getBytesEncoder = () => mkEnc(undefined, b => Uint8Array.from(b));
export const getBytesDecoder = () => mkDec(undefined, (b, o) => [b.slice(o), b.length]);
const A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const I58 = Object.fromEntries([...A58].map((c, i) => [c, BigInt(i)]));
function un58(s) {
    let n = 0n;
    for (const c of s) {
        if (I58[c] === undefined) throw new Error(`Expected a base58 string, got ${s}`);
        n = n * 58n + I58[c];
    }
    const out = [];
    while (n > 0n) {
        out.unshift(Number(n & 255n));
        n >>= 8n;
    }
    for (let i = 0; i < s.length && s[i] === '1'; i++) out.unshift(0);
    return Uint8Array.from(out);
}
function to58(b) {
    let n = 0n;
    for (const x of b) n = (n << 8n) | BigInt(x);
    let s = '';
    while (n > 0n) {
        s = A58[Number(n % 58n)] + s;
        n /= 58n;
    }
    for (let i = 0; i < b.length && b[i] === 0; i++) s = '1' + s;
    return s;
}
export const getBase58Encoder = () => mkEnc(undefined, un58);
export const getBase58Decoder = () => mkDec(undefined, (b, o) => [to58(b.slice(o)), b.length]);
export const getBase64Encoder = () => mkEnc(undefined, s => Uint8Array.from(Buffer.from(s, 'base64')));
export const getBase64Decoder = () => mkDec(undefined, (b, o) => [Buffer.from(b.slice(o)).toString('base64'), b.length]);
export const getBase16Encoder = () => mkEnc(undefined, s => Uint8Array.from(Buffer.from(s, 'hex')));
export const getBase16Decoder = () => mkDec(undefined, (b, o) => [Buffer.from(b.slice(o)).toString('hex'), b.length]);
export function isAddress(s) {
    try {
        return typeof s === 'string' && s.length >= 32 && s.length <= 44 && un58(s).length === 32;
    } catch {
        return false;
    }
}
export function assertIsAddress(s) {
    if (!isAddress(s)) throw new Error(`Expected an address, got ${s}`);
}
export function address(s) {
    assertIsAddress(s);
    return s;
}
export const getAddressEncoder = () => mkEnc(32, s => un58(address(s)));
export const getAddressDecoder = () => mkDec(32, (b, o) => [to58(b.slice(o, o + 32)), o + 32]);
export const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
const cat = l => Uint8Array.from(l.flatMap(x => [...x]));
const sum = l => (l.every(x => x !== undefined) ? l.reduce((a, b) => a + b, 0) : undefined);
export const getStructEncoder = fields => mkEnc(sum(fields.map(f => f[1].fixedSize)), v => cat(fields.map(([k, e]) => e.encode(v[k]))));
export const getStructDecoder = fields =>
    mkDec(sum(fields.map(f => f[1].fixedSize)), (b, o) => {
        const v = {};
        for (const [k, d] of fields) [v[k], o] = d.read(b, o);
        return [v, o];
    });
export const getTupleEncoder = items => mkEnc(sum(items.map(f => f.fixedSize)), v => cat(items.map((e, i) => e.encode(v[i]))));
export const getTupleDecoder = items =>
    mkDec(sum(items.map(f => f.fixedSize)), (b, o) => {
        const v = [];
        for (const d of items) {
            const [x, p] = d.read(b, o);
            v.push(x);
            o = p;
        }
        return [v, o];
    });
export const getConstantEncoder = c => mkEnc(c.length, () => c);
export const getUnitEncoder = () => mkEnc(0, () => new Uint8Array());
export const getUnitDecoder = () => mkDec(0, (b, o) => [undefined, o]);
export const fixEncoderSize = (e, n) =>
    mkEnc(n, v => {
        const b = new Uint8Array(n);
        b.set(e.encode(v).slice(0, n));
        return b;
    });
export const fixDecoderSize = (d, n) => mkDec(n, (b, o) => [d.decode(b.slice(o, o + n)), o + n]);
export const getArrayEncoder = (e, c = {}) =>
    mkEnc(undefined, v => cat([...(typeof c.size === 'number' || c.size === 'remainder' ? [] : [(c.size ?? getU32Encoder()).encode(v.length)]), ...v.map(x => e.encode(x))]));
export const transformEncoder = (e, f) => mkEnc(e.fixedSize, v => e.encode(f(v)));
export const transformDecoder = (d, f) =>
    mkDec(d.fixedSize, (b, o) => {
        const [v, p] = d.read(b, o);
        return [f(v, b, o), p];
    });
export const combineCodec = (e, d) => Object.freeze({ ...d, ...e, decode: d.decode, encode: e.encode, read: d.read, write: e.write });
export function containsBytes(data, bytes, offset) {
    const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
    return s.length === bytes.length && bytes.every((x, i) => x === s[i]);
}
export const bytesEqual = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
export const mergeBytes = cat;

// ---- addresses
const P = (1n << 255n) - 19n;
const mod = x => ((x % P) + P) % P;
const pow = (b, e) => {
    let r = 1n;
    b = mod(b);
    while (e > 0n) {
        if (e & 1n) r = (r * b) % P;
        b = (b * b) % P;
        e >>= 1n;
    }
    return r;
};
const D = mod(-121665n * pow(121666n, P - 2n));
function onCurve(bytes) {
    let y = 0n;
    for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 127 : bytes[i]);
    const y2 = mod(y * y);
    const u = mod(y2 - 1n), v = mod(D * y2 + 1n);
    const x2 = mod(u * pow(v, P - 2n));
    if (x2 === 0n) return true;
    return pow(x2, (P - 1n) / 2n) === 1n;
}
export async function getProgramDerivedAddress({ programAddress, seeds }) {
    const parts = seeds.map(s => (typeof s === 'string' ? utf8e.encode(s) : s));
    if (parts.length > 15) throw new Error('A maximum of 16 seeds, including the bump seed, may be supplied');
    if (parts.some(s => s.length > 32)) throw new Error('A seed may be at most 32 bytes long');
    const p = un58(address(programAddress));
    for (let bump = 255; bump > 0; bump--) {
        const h = createHash('sha256');
        for (const s of parts) h.update(s);
        const d = h.update(Uint8Array.from([bump])).update(p).update('ProgramDerivedAddress').digest();
        if (!onCurve(d)) return Object.freeze([to58(d), bump]);
    }
    throw new Error('Unable to find a viable program address bump seed');
}

// ---- accounts
export async function fetchEncodedAccount(rpc, addr, config = {}) {
    const { abortSignal, ...c } = config;
    const r = await rpc.getAccountInfo(addr, { ...c, encoding: 'base64' }).send({ abortSignal });
    return parseEncoded(addr, r.value);
}
function parseEncoded(addr, a) {
    if (!a) return Object.freeze({ address: addr, exists: false });
    return Object.freeze({
        address: addr,
        data: Uint8Array.from(Buffer.from(a.data[0], 'base64')),
        executable: a.executable,
        exists: true,
        lamports: a.lamports,
        programAddress: a.owner,
        space: a.space,
    });
}
export async function fetchEncodedAccounts(rpc, addrs, config = {}) {
    const { abortSignal, ...c } = config;
    const r = await rpc.getMultipleAccounts(addrs, { ...c, encoding: 'base64' }).send({ abortSignal });
    return r.value.map((a, i) => parseEncoded(addrs[i], a));
}
export function decodeAccount(a, decoder) {
    if ('exists' in a && !a.exists) return a;
    let data;
    try {
        data = decoder.decode(a.data);
    } catch (e) {
        throw new Error(`Failed to decode account data at address: ${a.address}: ${e.message}`);
    }
    return Object.freeze({ ...a, data });
}
export function assertAccountExists(a) {
    if (!a.exists) throw new Error(`Account not found at address: ${a.address}`);
}
export function assertAccountsExist(l) {
    const m = l.filter(a => !a.exists);
    if (m.length) throw new Error(`Accounts not found at addresses: ${m.map(a => a.address)}`);
}
export function assertAccountDecoded(a) {
    if (a.data instanceof Uint8Array) throw new Error('Expected a decoded account');
}

// ---- signers, instructions, messages
export const AccountRole = Object.freeze({ WRITABLE_SIGNER: 3, 3: 'WRITABLE_SIGNER', READONLY_SIGNER: 2, 2: 'READONLY_SIGNER', WRITABLE: 1, 1: 'WRITABLE', READONLY: 0, 0: 'READONLY' });
export const upgradeRoleToSigner = r => r | 2;
export const upgradeRoleToWritable = r => r | 1;
export const downgradeRoleToNonSigner = r => r & ~2;
export const downgradeRoleToReadonly = r => r & ~1;
export const isSignerRole = r => r >= 2;
export const isWritableRole = r => (r & 1) !== 0;
export const mergeRoles = (a, b) => a | b;
export const isTransactionSigner = v => ['signTransactions', 'modifyAndSignTransactions', 'signAndSendTransactions'].some(k => typeof v?.[k] === 'function');
export const isKeyPairSigner = v => 'keyPair' in v;
export const createNoopSigner = a => Object.freeze({ address: a, signMessages: async l => l.map(() => ({})), signTransactions: async l => l.map(() => ({})) });
function keyPairSigner(keyPair, publicRaw) {
    const addr = to58(publicRaw);
    return Object.freeze({
        address: addr,
        keyPair,
        signMessages: async l => l.map(m => ({ [addr]: Uint8Array.from(edSign(null, m.content, keyPair.privateKey)) })),
        signTransactions: async l => l.map(t => ({ [addr]: Uint8Array.from(edSign(null, t.messageBytes, keyPair.privateKey)) })),
    });
}
export async function generateKeyPairSigner() {
    const k = generateKeyPairSync('ed25519');
    return keyPairSigner(k, k.publicKey.export({ format: 'der', type: 'spki' }).slice(-32));
}
export async function createKeyPairSignerFromBytes(b) {
    const der = Buffer.concat([Buffer.from('302e020100300506032b657004220420', 'hex'), Buffer.from(b.slice(0, 32))]);
    return keyPairSigner({ privateKey: createPrivateKey({ key: der, format: 'der', type: 'pkcs8' }) }, b.slice(32, 64));
}
export const pipe = (x, ...f) => f.reduce((a, g) => g(a), x);
export const createTransactionMessage = ({ version }) => Object.freeze({ instructions: Object.freeze([]), version });
export const setTransactionMessageFeePayerSigner = (feePayer, tx) => Object.freeze({ ...tx, feePayer });
export const setTransactionMessageFeePayer = (a, tx) => Object.freeze({ ...tx, feePayer: Object.freeze({ address: a }) });
export const setTransactionMessageLifetimeUsingBlockhash = (b, tx) => Object.freeze({ ...tx, lifetimeConstraint: Object.freeze(b) });
export const appendTransactionMessageInstructions = (l, tx) => Object.freeze({ ...tx, instructions: Object.freeze([...tx.instructions, ...l]) });
export const appendTransactionMessageInstruction = (i, tx) => appendTransactionMessageInstructions([i], tx);
export const prependTransactionMessageInstructions = (l, tx) => Object.freeze({ ...tx, instructions: Object.freeze([...l, ...tx.instructions]) });
export const prependTransactionMessageInstruction = (i, tx) => prependTransactionMessageInstructions([i], tx);
export const isInstructionWithAccounts = i => i.accounts !== undefined;
export const isInstructionWithData = i => i.data !== undefined;
export function assertIsInstructionWithAccounts(i) {
    if (i.accounts === undefined) throw new Error('Expected an instruction with accounts');
}
export function assertIsInstructionWithData(i) {
    if (i.data === undefined) throw new Error('Expected an instruction with data');
}
export function assertIsFullySignedTransaction(tx) {
    const m = Object.entries(tx.signatures).filter(([, s]) => !s).map(([a]) => a);
    if (m.length) throw new Error(`Transaction is missing signatures for addresses: ${m.join(', ')}`);
}
export const isFullySignedTransaction = tx => Object.values(tx.signatures).every(s => !!s);
export function getTransactionSize(tx) {
    const n = Object.keys(tx.signatures).length;
    return 1 + 64 * n + tx.messageBytes.length;
}
export const TRANSACTION_SIZE_LIMIT = 1232;
export const isTransactionWithinSizeLimit = tx => getTransactionSize(tx) <= TRANSACTION_SIZE_LIMIT;
export function assertIsTransactionWithinSizeLimit(tx) {
    if (!isTransactionWithinSizeLimit(tx)) throw new Error(`Transaction size ${getTransactionSize(tx)} exceeds limit of ${TRANSACTION_SIZE_LIMIT} bytes`);
}
export function assertIsSendableTransaction(tx) {
    assertIsFullySignedTransaction(tx);
    assertIsTransactionWithinSizeLimit(tx);
}
export const isSendableTransaction = tx => isFullySignedTransaction(tx) && isTransactionWithinSizeLimit(tx);
export const extendClient = (c, e) => Object.freeze({ ...c, ...e });
export const lamports = x => x;
export const isSome = o => o?.__option === 'Some';
export const isNone = o => o?.__option === 'None';
export const some = value => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const unwrapOption = (o, f = () => null) => (isSome(o) ? o.value : f());
